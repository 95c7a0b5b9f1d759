// C30: SLAM runs are reproducible and SLAM instances independent of each other.
// Builds: plain (sanitizers), -DVF_PERTURB (contents of fresh memory varied), -DVF_THREADS (ThreadSanitizer).
#include "slam_common.h"
#include <malloc.h>
#include <random>
#include <thread>
using namespace vf;
#ifdef VF_THREADS
REQUIRE_EVENTS("threaded_runs", 100)
#else
REQUIRE_EVENTS("runs", 500)
REQUIRE_EVENTS("runs_gmapping", 80)
REQUIRE_EVENTS("interleaved", 100)
REQUIRE_EVENTS("watched", 100)
REQUIRE_EVENTS("read_between", 100)
REQUIRE_EVENTS("shared_scans", 100)
REQUIRE_EVENTS("poses_compared", 2000)
#endif

// Entropy comes from a stream of the run that is being executed.
static thread_local uint64_t *g_entropy = nullptr;
std::random_device::result_type std::random_device::_M_getval() {
  static thread_local uint64_t spare = 7;
  uint64_t &s = g_entropy ? *g_entropy : spare;
  s = s * 6364136223846793005ull + 1442695040888963407ull;
  return (unsigned)(s >> 33);
}
namespace {
struct Step { std::vector<SPt> pts; RobotPoseDelta d; bool cached; int n; };
struct Script { Cfg cfg; std::vector<Step> steps; uint64_t entropy; };
Script make_script(Rng &rng) {
  Script s{make_cfg(rng), {}, rng.next()};
  auto &c = s.cfg;
  auto sc = Scene::room(rng, c.size / 2);
  RobotPose odo{rng.uni(-.1, .1) * c.size, rng.uni(-.1, .1) * c.size, rng.uni(-3, 3)};
  bool cached = rng.chance(0.3);
  for (int t = 0, n = rng.range(3, 9); t < n; ++t) {
    Step st; st.cached = false;
    auto prev = odo;
    odo = RobotPose{odo.x + rng.uni(-.2, .2), odo.y + rng.uni(-.2, .2), odo.theta + rng.uni(-.3, .3)};
    st.d = odo - prev; st.n = rng.range(5, 30);
    LaserScan2D ls; std::string w;
    if (rng.chance(0.15)) { ls = hostile(rng, c, w); }
    else {
      ls = sc.scan(RobotPose{std::remainder(odo.x, c.size / 5), std::remainder(odo.y, c.size / 5), odo.theta}, st.n, c.size * 2);
      if (cached) { st.cached = true; double a = -M_PI; std::vector<ScanPoint2D> p;
        for (auto &q : ls.points()) { p.emplace_back(q.range(), a, q.is_occupied()); a += 2 * M_PI / st.n; } ls.points() = p; }
    }
    st.pts = snap(ls);
    s.steps.push_back(st);
  }
  return s;
}
TransformedLaserScan make_scan(const Step &st) {
  TransformedLaserScan ts; ts.pose_delta = st.d; ts.quality = 1;
  for (auto &p : st.pts) { ts.scan.points().emplace_back(p.r, p.a, p.o); }
  if (st.cached) { auto tp = std::make_shared<CachedTrigonometryProvider>(); tp->update(-M_PI, M_PI - 2 * M_PI / st.n, 2 * M_PI / st.n); ts.scan.trig_provider = tp; }
  return ts;
}
// dirties the part of the stack the next calls will use
__attribute__((noinline)) void scrub(int fill) {
  volatile char b[60000]; for (size_t i = 0; i < sizeof(b); ++i) { b[i] = fill; }
}
struct Live {
  const Script &s; std::shared_ptr<LaserScanGridWorld> w; uint64_t entropy; size_t t = 0; std::vector<RobotPose> trace;
  Live(const Script &s) : s{s}, entropy{s.entropy} { g_entropy = &entropy; w = make_slam(s.cfg); g_entropy = nullptr; }
  bool step(TransformedLaserScan *shared = nullptr) {
    if (t == s.steps.size()) { return false; }
    auto own = make_scan(s.steps[t]);
    auto &ts = shared ? *shared : own;
    g_entropy = &entropy; w->handle_sensor_data(ts); g_entropy = nullptr;
    trace.push_back(w->pose()); ++t;
    return true;
  }
  uint64_t digest() const { return map_digest(w->map()); }
};
struct Out { std::vector<RobotPose> trace; uint64_t map; };
Out alone(const Script &s) {
  Live l{s};
  while (l.step()) {}
  return {l.trace, l.digest()};
}
struct Watcher : WorldPoseObserver, WorldMapObserver<GridMap> {
  double sum = 0;
  void on_pose_update(const RobotPose &p) override { sum += p.x; }
  void on_map_update(const GridMap &m) override { sum += m.width() + m[m.world_to_cell({0, 0})].occupancy().prob_occ; }
};
void compare(const Script &s, const std::vector<RobotPose> &got, uint64_t map, const Out &ref, const char *how) {
  auto what = [&](size_t i) { return std::string{how} + ", scan " + std::to_string(i) + " of kind " + std::to_string(s.cfg.kind) + s.cfg.what; };
  VF_CHECK(got.size() == ref.trace.size(), "length", what(0));
  for (size_t i = 0; i < got.size(); ++i) {
    auto &a = got[i]; auto &b = ref.trace[i];
    VF_CHECK(a.x == b.x && a.y == b.y && a.theta == b.theta, how, what(i) << ": pose " << ps(a) << ", run alone " << ps(b));
    count("poses_compared");
  }
  VF_CHECK(map == ref.map, how, what(got.size()) << ": the final maps differ");
  eval();
}
} // namespace

#ifndef VF_THREADS
FAMILY(repeat, 160, 5000) {
  MuteLog mute;
  auto s = make_script(rng);
#ifdef VF_PERTURB
  mallopt(M_PERTURB, 0); scrub(0);
#endif
  auto ref = alone(s);
  count("runs"); if (s.cfg.kind == 2) { count("runs_gmapping"); }
  for (auto &p : ref.trace) { distinct(Hash{}.add(p.x).add(p.y).add(p.theta).h); }
  for (int k = 0; k < 2; ++k) {
#ifdef VF_PERTURB
    int fill = k ? 0x55 : 0xff; mallopt(M_PERTURB, fill); scrub(fill);
    Live l{s}; do { scrub(fill); } while (l.step());
    mallopt(M_PERTURB, 0);
    compare(s, l.trace, l.digest(), ref, "repeated-in-dirty-memory");
#else
    auto o = alone(s); compare(s, o.trace, o.map, ref, "repeated");
#endif
  }
}
FAMILY(interleaved, 160, 5000) {
  MuteLog mute;
  auto a = make_script(rng), b = make_script(rng);
  auto ra = alone(a), rb = alone(b);
  count("runs", 2); count("runs_gmapping", (a.cfg.kind == 2) + (b.cfg.kind == 2));
  Live la{a}, lb{b};
  bool ma = true, mb = true;
  while (ma || mb) { if (rng.chance(0.5)) { ma = ma && la.step(); } else { mb = mb && lb.step(); } }
  compare(a, la.trace, la.digest(), ra, "interleaved"); compare(b, lb.trace, lb.digest(), rb, "interleaved");
  count("interleaved");
}
FAMILY(watched, 160, 5000) {
  MuteLog mute;
  auto s = make_script(rng); auto ref = alone(s);
  count("runs"); if (s.cfg.kind == 2) { count("runs_gmapping"); }
  Live l{s};
  auto w = std::make_shared<Watcher>(); auto gone = std::make_shared<Watcher>();
  l.w->subscribe_pose(w); l.w->subscribe_map(w); l.w->subscribe_pose(gone); l.w->subscribe_map(gone); l.w->subscribe_pose(w);
  if (auto one = std::dynamic_pointer_cast<SingleStateHypothesisLaserScanGridWorld>(l.w)) { one->add_sm_observer(std::make_shared<RecObs>()); auto ro = std::make_shared<RecObs>();
    one->add_sm_observer(ro); while (l.step()) { if (rng.chance(0.2)) { gone.reset(); } } }
  else { while (l.step()) { if (rng.chance(0.2)) { gone.reset(); } } }
  compare(s, l.trace, l.digest(), ref, "watched");
  count("watched");
}
FAMILY(read_between, 160, 5000) {
  MuteLog mute;
  auto s = make_script(rng); auto ref = alone(s);
  count("runs"); if (s.cfg.kind == 2) { count("runs_gmapping"); }
  Live l{s};
  do {
    const LaserScanGridWorld &w = *l.w; const GridMap &m = w.map(); double sum = 0; Geo g{m};
    for (int i = rng.range(0, 40); i; --i) {
      auto c = C(rng.range(-300, 300), rng.range(-300, 300));
      if (m.has_cell(c)) { sum += m[c].occupancy().prob_occ; auto cl = m[c].clone(); *cl += mk_obs(1, 1, 1, true); }
    }
    if (rng.chance(0.3)) { (void)map_digest(m); }
    if (rng.chance(0.3)) { (void)m.save_state(); }
  } while (l.step());
  compare(s, l.trace, l.digest(), ref, "read-between");
  count("read_between");
}
// several SLAMs listen to one source of scans
FAMILY(shared_scan, 160, 5000) {
  MuteLog mute;
  auto a = make_script(rng), b = make_script(rng);
  b.steps = a.steps;
  auto ra = alone(a), rb = alone(b);
  count("runs", 2); count("runs_gmapping", (a.cfg.kind == 2) + (b.cfg.kind == 2));
  Live la{a}, lb{b};
  for (size_t t = 0; t < a.steps.size(); ++t) {
    auto ts = make_scan(a.steps[t]);
    Live &f = rng.chance(0.5) ? la : lb, &g = &f == &la ? lb : la;
    f.step(&ts);
    VF_CHECK(eq(snap(ts.scan), a.steps[t].pts), "scan-changed", "a SLAM changed the scan it was given; kind " << f.s.cfg.kind << f.s.cfg.what);
    VF_CHECK(ts.pose_delta.x == a.steps[t].d.x && ts.pose_delta.y == a.steps[t].d.y && ts.pose_delta.theta == a.steps[t].d.theta, "delta-changed",
             "a SLAM changed the odometry it was given; kind " << f.s.cfg.kind << f.s.cfg.what);
    g.step(&ts);
  }
  compare(a, la.trace, la.digest(), ra, "shared-scan"); compare(b, lb.trace, lb.digest(), rb, "shared-scan");
  count("shared_scans");
}
#else
namespace {
struct NullBuf : std::streambuf { // no state, so safe to share like the real standard streams
  int overflow(int c) override { return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
};
struct Quiet {
  NullBuf b; std::streambuf *o, *l;
  Quiet() : o{std::cout.rdbuf(&b)}, l{std::clog.rdbuf(&b)} {}
  ~Quiet() { std::cout.rdbuf(o); std::clog.rdbuf(l); }
};
}
FAMILY(threads, 60, 1500) {
  Quiet mute;
  std::vector<Script> s; std::vector<Out> ref, got(4);
  for (int i = 0; i < 4; ++i) { s.push_back(make_script(rng)); }
  for (auto &x : s) { ref.push_back(alone(x)); }
  std::vector<std::thread> th;
  for (int i = 0; i < 4; ++i) { th.emplace_back([&, i] { got[i] = alone(s[i]); }); }
  for (auto &t : th) { t.join(); }
  for (int i = 0; i < 4; ++i) { compare(s[i], got[i].trace, got[i].map, ref[i], "threads"); count("threaded_runs");
    for (auto &p : ref[i].trace) { distinct(Hash{}.add(p.x).add(p.y).add(p.theta).h); } }
}
FAMILY(readers, 60, 1500) { // several threads look at one map that nobody writes to
  int kind = rng.below(6); auto proto = make_cell(rng.below(kCellsN));
  GridMapParams gp{(int)rng.range(1, 90), (int)rng.range(1, 90), .5};
  std::shared_ptr<GridMap> m; auto oie = std::make_shared<DiscrepancyOIE>();
  if (kind == 4) { m = std::make_shared<M3RSMRescalableGridMap<UnboundedPlainGridMap>>(oie, proto, gp); }
  else if (kind == 5) { m = std::make_shared<M3RSMRescalableGridMap<UnboundedLazyTiledGridMap>>(oie, proto, gp); }
  else { m = make_map(kind, proto, gp); }
  auto put = [&](GridMap &t) { C c(rng.range(-60, 60), rng.range(-60, 60)); if ((kind != 0 && kind != 1) || t.has_cell(c)) { t.update(c, mk_obs(rng.unit())); } };
  for (int i = 0; i < 30; ++i) { put(*m); }
  std::vector<C> at; for (int i = 0; i < 300; ++i) { C c(rng.range(-150, 150), rng.range(-150, 150)); if (kind < 2 && !m->has_cell(c)) { continue; } at.push_back(c); }
  auto look = [&](std::vector<double> &v) {
    const GridMap &r = *m;
    for (auto &c : at) {
      const GridCell &cell = r[c]; auto copy = cell.clone();
      for (double x : {cell.occupancy().prob_occ, copy->occupancy().estimation_quality, (double)r.has_cell(c), cell.discrepancy(mk_obs(.7)),
                       (double)r.world_to_cell(r.cell_to_world(c)).x, (double)r.world_to_cells({{0, 0}, r.cell_to_world(c)}).size()}) { v.push_back(x); }
    }
    for (double x : {(double)r.width(), (double)r.height(), r.scale(), (double)r.origin().x}) { v.push_back(x); }
  };
  std::vector<std::vector<double>> got(4); std::vector<double> ref;
  std::vector<std::thread> th;
  for (auto &g : got) { th.emplace_back([&] { look(g); }); }
  for (auto &t : th) { t.join(); }
  look(ref);
  for (auto &g : got) {
    VF_CHECK(g.size() == ref.size(), "readers", "a reader saw " << g.size() << " values, another " << ref.size());
    for (size_t i = 0; i < g.size(); ++i) { VF_CHECK(g[i] == ref[i] || (std::isnan(g[i]) && std::isnan(ref[i])), "readers", "map kind " << kind << ": value " << i << " is " << g[i] << " and " << ref[i]); }
  }
  count("parallel_reads", 4 * ref.size()); eval(); distinct(Hash{}.add((uint64_t)kind).add((uint64_t)at.size()).h);
}
#endif
VF_MAIN
