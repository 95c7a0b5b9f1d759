// C34: memory follows the mapped area, tiles are shared until written, and everything is given back.
#include <cstdlib>
#include <malloc.h>
#include <new>
namespace vfmem { long blocks = 0, bytes = 0; }
static void *vf_get(std::size_t n) {
  void *p = std::malloc(n ? n : 1);
  if (!p) { throw std::bad_alloc{}; }
  ++vfmem::blocks; vfmem::bytes += malloc_usable_size(p);
  return p;
}
static void vf_put(void *p) { if (p) { --vfmem::blocks; vfmem::bytes -= malloc_usable_size(p); std::free(p); } }
void *operator new(std::size_t n) { return vf_get(n); }
void *operator new[](std::size_t n) { return vf_get(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { try { return vf_get(n); } catch (...) { return nullptr; } }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { try { return vf_get(n); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { vf_put(p); }
void operator delete[](void *p) noexcept { vf_put(p); }
void operator delete(void *p, std::size_t) noexcept { vf_put(p); }
void operator delete[](void *p, std::size_t) noexcept { vf_put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { vf_put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { vf_put(p); }

#include "slam_common.h"
#include "utils/map_dumpers.h"
#include "core/maps/rescalable_caching_grid_map.h"
#include "core/scan_matchers/bf_multi_res_scan_matcher.h"
using namespace vf;
REQUIRE_EVENTS("slam_lives", 100)
REQUIRE_EVENTS("map_lives", 100)
REQUIRE_EVENTS("loops", 1000)
REQUIRE_EVENTS("matchings", 3000)
REQUIRE_EVENTS("tile_maps", 20)
REQUIRE_EVENTS("observers_released", 500)

namespace {
struct NullBuf : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } };
struct Hush { // swallows output without storing it
  NullBuf nb; std::streambuf *o, *e, *l;
  Hush() : o{std::cout.rdbuf(&nb)}, e{std::cerr.rdbuf(&nb)}, l{std::clog.rdbuf(&nb)} {}
  ~Hush() { std::cout.rdbuf(o); std::cerr.rdbuf(e); std::clog.rdbuf(l); }
};
struct Mem { long blocks, bytes; };
Mem mem() { return {vfmem::blocks, vfmem::bytes}; }
// what a life leaves behind; the libraries may set something up once
Mem left(const std::function<void()> &life) {
  Mem best{1L << 60, 0};
  for (int i = 0; i < 3 && best.blocks; ++i) {
    auto b = mem(); life(); auto a = mem();
    Mem d{a.blocks - b.blocks, a.bytes - b.bytes};
    if (std::abs(d.blocks) < std::abs(best.blocks)) { best = d; }
  }
  return best;
}
struct PObs : WorldPoseObserver { int n = 0; void on_pose_update(const RobotPose &) override { ++n; } };
struct MObs : WorldMapObserver<GridMap> { int n = 0; void on_map_update(const GridMap &) override { ++n; } };
} // namespace

FAMILY(slams, 480, 10000) { // a whole SLAM from its birth to its end
  auto cfg = make_cfg(rng);
  auto scene = Scene::room(rng, cfg.size / 2);
  std::vector<TransformedLaserScan> in;
  RobotPose truth{cfg.scale / 3, cfg.scale / 3, 0};
  for (int i = 0, n = rng.range(1, 6); i < n; ++i) {
    TransformedLaserScan t; t.quality = 1; std::string w;
    RobotPoseDelta d{rng.uni(-.1, .1) * cfg.size / 4, rng.uni(-.1, .1) * cfg.size / 4, rng.uni(-.2, .2)};
    truth += d; t.pose_delta = d;
    t.scan = rng.chance(.2) ? hostile(rng, cfg, w) : scene.scan(truth, rng.range(5, 40), cfg.size);
    if (w == "very long") { t.scan.points().clear(); }
    in.push_back(t);
  }
  Hush hush;
  auto r = left([&] {
    auto c = cfg;
    auto slam = make_slam(c);
    auto po = std::make_shared<PObs>(); auto mo = std::make_shared<MObs>();
    slam->subscribe_pose(po); slam->subscribe_map(mo);
    for (auto t : in) { slam->handle_sensor_data(t); }
    po.reset();
    for (auto t : in) { slam->handle_sensor_data(t); }
  });
  VF_CHECK(r.blocks == 0, "slam-leaks", r.blocks << " blocks, " << r.bytes << " bytes are left after the end of a SLAM:" << cfg.what);
  count("slam_lives"); eval(); distinct(Hash().add(cfg.what.size()).add(truth.x).add((uint64_t)cfg.kind));
}

FAMILY(maps, 600, 12000) { // maps: growth, copies, states, images
  int kind = rng.below(6), cell = rng.below(kCellsN);
  struct Op { int op; C c; double p; };
  std::vector<Op> ops;
  for (int i = 0, n = rng.range(3, 60); i < n; ++i) { ops.push_back({(int)rng.below(8), C(rng.range(-60, 60), rng.range(-60, 60)), rng.unit()}); }
  int w = rng.range(1, 60), h = rng.range(1, 60);
  Hush hush; std::string tmp = "/tmp/vf_c34_" + std::to_string(getpid()) + ".pgm";
  auto r = left([&] {
    auto proto = make_cell(cell); auto oie = std::make_shared<DiscrepancyOIE>();
    GridMapParams gp{w, h, .5};
    auto mk = [&]() -> std::unique_ptr<GridMap> {
      if (kind == 4) { return std::make_unique<M3RSMRescalableGridMap<UnboundedPlainGridMap>>(oie, proto, gp); }
      if (kind == 5) { return std::make_unique<M3RSMRescalableGridMap<UnboundedLazyTiledGridMap>>(oie, proto, gp); }
      return make_map(kind, proto, gp);
    };
    auto m = mk();
    std::vector<std::unique_ptr<GridMap>> copies;
    for (auto &o : ops) {
      auto &t = copies.empty() || o.p < .5 ? m : copies.back();
      bool in = kind >= 2 || t->has_cell(o.c);
      switch (o.op) {
      case 0: if (kind == 1) { copies.push_back(std::make_unique<LazyTiledGridMap>(static_cast<const LazyTiledGridMap &>(*t))); }
              if (kind == 3) { copies.push_back(std::make_unique<UnboundedLazyTiledGridMap>(static_cast<const UnboundedLazyTiledGridMap &>(*t))); } break;
      case 1: if (kind == 2 || kind == 4) { auto b = t->save_state(); auto n = mk(); n->load_state(b); copies.push_back(std::move(n)); } break;
      case 2: if (!copies.empty()) { copies.erase(copies.begin()); } break;
      case 3: if (in) { t->reset(o.c, *proto); } break;
      case 4: if (kind == 4 && o.p < .3) { try { auto b = t->save_state(); b.resize(b.size() / 2); auto n = mk(); n->load_state(b); } catch (const std::exception &) {} } // refused
              if (o.p < .2) { std::ofstream f{tmp}; GridMapToPgmDumber::dump_map(f, *t); } break;
      default: if (in) { t->update(o.c, mk_obs(o.p, 1, 1, .5 < o.p)); }
      }
    }
  });
  std::remove(tmp.c_str());
  VF_CHECK(r.blocks == 0, "map-leaks", r.blocks << " blocks, " << r.bytes << " bytes are left after the end of map kind " << kind << " cell " << cell << " with " << ops.size() << " operations");
  count("map_lives"); eval(); distinct(Hash().add((uint64_t)kind).add((uint64_t)cell).add((uint64_t)w).add((uint64_t)ops.size()));
}

FAMILY(steady, 128, 2000) { // the same round trip again and again
  auto cfg = make_cfg(rng);
  bool exact = rng.chance(.5);
  cfg.size = 40 * cfg.scale;
  cfg.set("slam/map/height_in_meters", 120 * cfg.scale); cfg.set("slam/map/width_in_meters", 120 * cfg.scale);
  if (exact && cfg.kind < 2) { cfg.set("slam/scmtch/type", "idle"); cfg.set("slam/scmtch/use_amb_drift_detector", "false"); } else { exact = false; }
  cfg.set("slam/mapping/blur", 0); cfg.set("slam/mapping/max_range", 100);
  for (auto n : {"sample/xy/mean", "sample/theta/mean", "sample/xy/sigma", "sample/theta/sigma"}) { cfg.set(std::string{"slam/particles/"} + n, 0); }
  auto scene = Scene::room(rng, 8 * cfg.scale);
  const int n = 10; double st = cfg.scale / 4;
  std::vector<TransformedLaserScan> in; RobotPose p{0, 0, 0};
  auto at = [&](int i) { int k = i % n; return RobotPose{st * (k < 5 ? k : n - k), st * ((k + 2) % n < 5 ? (k + 2) % n : n - (k + 2) % n), 0}; };
  for (int i = 0; i < n; ++i) {
    TransformedLaserScan t; t.quality = 1; auto a = at(i), b = at(i + 1);
    t.pose_delta = b - a; t.scan = scene.scan(b, 20, 10 * cfg.scale); in.push_back(t);
  }
  Hush hush;
  auto slam = make_slam(cfg);
  const int loops = 24; long most[2] = {0, 0}, mid = 0, end = 0; bool wandered = false; int wide = slam->map().width(), high = slam->map().height();
  for (int l = 0; l < loops; ++l) {
    for (auto &t : in) { auto c = t; slam->handle_sensor_data(c); }
    long b = mem().bytes; auto &m = most[l < loops / 2 ? 0 : 1]; m = std::max(m, b);
    if (l == loops / 2) { mid = b; }
    end = b;
    Geo g{slam->map()}; auto q = slam->pose();
    // a matcher without a clue may wander away, and the map with it
    wandered = wandered || g.w != wide || g.h != high || std::hypot(q.x, q.y) > 6 * cfg.scale || std::abs(q.theta) > .5;
    wide = g.w; high = g.h;
  }
  long base; { auto s = std::move(slam); } base = mem().bytes;
  count("loops", loops);
  VF_CHECK(!exact || end - mid <= 512, "steady-growth", "an unmoved matcher: memory grew by " << end - mid << " bytes over " << loops / 2 - 1 << " identical rounds:" << cfg.what);
  VF_CHECK(wandered || most[1] - base <= (most[0] - base) * 1.25 + 65536, "growth", "memory grew from " << most[0] - base << " to " << most[1] - base << " bytes over " << loops / 2 << " rounds:" << cfg.what);
  count(exact ? "exact_rounds" : wandered ? "wandered" : "bounded_rounds");
  eval(); distinct(Hash().add((uint64_t)most[0]).add((uint64_t)cfg.kind));
}

FAMILY(matching, 192, 4000) { // matchers keep nothing of a matching
  int k = rng.below(6), wt = rng.below(3);
  auto scene = Scene::room(rng, 4);
  std::shared_ptr<GridMap> map; auto oie = std::make_shared<DiscrepancyOIE>();
  auto proto = std::make_shared<MeanProbabilityCell>();
  if (k == 3) { map = std::make_shared<M3RSMRescalableGridMap<UnboundedPlainGridMap>>(oie, proto, GridMapParams{80, 80, .2}); }
  else { map = make_map(2, proto, {80, 80, .2}); }
  scene.draw(rng, *map);
  std::shared_ptr<ScanProbabilityEstimator> spe;
  auto spw = make_spw(wt);
  if (k == 3) { spe = std::make_shared<WeightedMeanPointProbabilitySPE>(std::make_shared<MaxOccupancyObservationPE>(oie), spw); }
  else { spe = std::make_shared<WeightedMeanPointProbabilitySPE>(std::make_shared<ObstacleBasedOccupancyObservationPE>(oie), spw); }
  std::shared_ptr<GridScanMatcher> sm;
  switch (k) {
  case 0: sm = std::make_shared<MonteCarloScanMatcher>(spe, 7, .1, .05, 10, 30); break;
  case 1: sm = std::make_shared<HillClimbingScanMatcher>(spe, 3, .1, .05, .5); break;
  case 2: sm = std::make_shared<BruteForceScanMatcher>(spe, -.1, .1, .1, -.1, .1, .1, -.05, .05, .05); break;
  case 3: sm = std::make_shared<BruteForceMultiResolutionScanMatcher>(spe, .2, .2, .1, .05, .2); break;
  case 4: sm = std::make_shared<HillClimbingSMFixed>(spe); break;
  default: sm = std::make_shared<ConnectTheDotsAmbiguousDriftDetector>(std::make_shared<HillClimbingScanMatcher>(spe, 3, .1, .05)); break;
  }
  std::vector<TransformedLaserScan> in; std::vector<RobotPose> at;
  for (int i = 0; i < 5; ++i) {
    RobotPose p{rng.uni(-.5, .5), rng.uni(-.5, .5), rng.uni(-.3, .3)};
    TransformedLaserScan t; t.quality = 1; t.scan = scene.scan(p, rng.range(0, 20), 8); in.push_back(t);
    at.push_back({p.x + rng.uni(-.1, .1), p.y + rng.uni(-.1, .1), p.theta});
  }
  Hush hush;
  const int rounds = k == 3 || k == 2 ? 16 : 40; long mid = 0, end = 0;
  for (int r = 0; r < rounds; ++r) {
    for (int i = 0; i < 5; ++i) { RobotPoseDelta d; sm->process_scan(in[i], at[i], *map, d); }
    if (r == rounds / 2) { mid = mem().bytes; }
    end = mem().bytes;
  }
  count("matchings", rounds * 5);
  VF_CHECK(end - mid <= 256, "matcher-growth", "matcher " << k << " weighting " << wt << ": memory grew by " << end - mid << " bytes over " << (rounds - rounds / 2 - 1) * 5 << " repeated matchings");
  eval(); distinct(Hash().add((uint64_t)k).add(at[0].x));
}

FAMILY(reading, 200, 4000) { // looking at a map costs nothing
  int kind = rng.below(4);
  auto proto = make_cell(rng.below(kCellsN));
  auto m = make_map(kind, proto, {(int)rng.range(1, 300), (int)rng.range(1, 300), .5});
  for (int i = 0; i < 5; ++i) { C c(rng.range(-100, 100), rng.range(-100, 100)); if (2 <= kind || m->has_cell(c)) { m->update(c, mk_obs(.7)); } }
  auto b = mem();
  double sum = 0; Geo g{*m}; long n = 0;
  for (int x = 0; x < g.w; x += 3) for (int y = 0; y < g.h; y += 3) { sum += (*m)[C(x - g.o.x, y - g.o.y)].occupancy().prob_occ; ++n; }
  if (2 <= kind) { for (int i = 0; i < 300; ++i) { sum += (*m)[C(rng.range(-100000, 100000), rng.range(-100000, 100000))].occupancy().prob_occ; } }
  auto a = mem();
  VF_CHECK(a.blocks == b.blocks && a.bytes == b.bytes, "reading-allocates", "kind " << kind << ": " << a.bytes - b.bytes << " bytes after " << n << " reads, sum " << sum);
  count("cells_read", n); eval(); distinct(Hash().add(sum).add((uint64_t)kind));
}

FAMILY(tiles, 40, 400) { // untouched and shared tiles take no memory of their own
  bool unb = rng.chance(.5); auto proto = make_cell(rng.below(kCellsN));
  int W = rng.range(500, 800), H = rng.range(500, 800);
  auto mk = [&]() -> std::unique_ptr<GridMap> { GridMapParams p{W, H, .5};
    if (unb) { return std::make_unique<UnboundedLazyTiledGridMap>(proto, p); } return std::make_unique<LazyTiledGridMap>(proto, p); };
  auto cp = [&](const GridMap &m) -> std::unique_ptr<GridMap> {
    if (unb) { return std::make_unique<UnboundedLazyTiledGridMap>(static_cast<const UnboundedLazyTiledGridMap &>(m)); }
    return std::make_unique<LazyTiledGridMap>(static_cast<const LazyTiledGridMap &>(m)); };
  auto b0 = mem().bytes;
  auto m = mk(); long empty = mem().bytes - b0;
  auto o = m->origin(); auto cell = [&](int x, int y) { return C(x - o.x, y - o.y); };
  int fx = rng.below(W), fy = rng.below(H);
  m->update(cell(fx, fy), mk_obs(.7)); long one = mem().bytes - b0 - empty;
  for (int x = 0; x < W; ++x) for (int y = 0; y < H; ++y) { m->update(cell(x, y), mk_obs(rng.unit())); }
  long full = mem().bytes - b0;
  long own = mem().bytes; // what this monitor itself holds
  std::ostringstream os; os << (unb ? "unbounded " : "") << W << "x" << H << ": empty " << empty << " full " << full; auto what = os.str(); own = mem().bytes - own;
  VF_CHECK(empty < full / 5, "empty-tiles", what);
  VF_CHECK(one < full / 5, "one-cell", what << ": the first cell takes " << one);
  auto b1 = mem().bytes; auto c = cp(*m); long copy = mem().bytes - b1;
  VF_CHECK(copy < full / 5, "copy-duplicates", what << ": a copy takes " << copy);
  auto cc = cp(*c); long copy2 = mem().bytes - b1;
  VF_CHECK(copy2 < full / 5, "copy-duplicates", what << ": a copy and its copy take " << copy2);
  auto b2 = mem().bytes; c->update(cell(rng.below(W), rng.below(H)), mk_obs(.3)); long split = mem().bytes - b2;
  VF_CHECK(split < full / 5, "split", what << ": the first write to a copy takes " << split);
  cc.reset(); c.reset();
  long rest = mem().bytes - b1;
  VF_CHECK(rest == 0, "copies-leave", what << ": " << rest << " bytes left of the copies");
  // writing where one is the only owner again takes nothing new
  auto b3 = mem().bytes; for (int i = 0; i < 200; ++i) { m->update(cell(rng.below(W), rng.below(H)), mk_obs(.3)); }
  VF_CHECK(mem().bytes - b3 <= 4096, "sole-owner", what << ": 200 updates of known cells take " << mem().bytes - b3);
  if (unb) { // growing takes no tiles
    auto b4 = mem().bytes; m->update(C(rng.pickd({-1, 1}) * rng.range(1000, 3000), 0), mk_obs(.3));
    VF_CHECK(mem().bytes - b4 < full / 2, "growth-fills", what << ": growing to " << Geo{*m}.str() << " takes " << mem().bytes - b4);
  }
  m.reset();
  VF_CHECK(mem().bytes - b0 - own == 0, "map-leaves", what << ": " << mem().bytes - b0 - own << " bytes left");
  if (unb) { count("grown_tile_maps"); }
  count("tile_maps"); eval(); distinct(Hash().add((uint64_t)W).add((uint64_t)H).add((uint64_t)full));
}

FAMILY(extent, 600, 12000) { // growing covers what is asked for, not a world of its own
  int kind = rng.range(2, 3); auto proto = make_cell(rng.below(kCellsN));
  auto m = make_map(kind, proto, {(int)rng.range(1, 40), (int)rng.range(1, 40), .5});
  Geo g0{*m}; long x0 = -g0.o.x, x1 = x0 + g0.w, y0 = -g0.o.y, y1 = y0 + g0.h;
  std::string path;
  for (int i = 0, n = rng.range(1, 12); i < n; ++i) {
    int r = rng.pickd({5, 50, 50, 300, 600}); C c(rng.range(-r, r), rng.range(-r, r));
    m->update(c, mk_obs(.7)); path += cs(c);
    x0 = std::min<long>(x0, c.x); x1 = std::max<long>(x1, c.x + 1); y0 = std::min<long>(y0, c.y); y1 = std::max<long>(y1, c.y + 1);
    Geo g{*m};
    VF_CHECK(g.w <= 4 * (x1 - x0) + 600 && g.h <= 4 * (y1 - y0) + 600, "extent", "kind " << kind << " started " << g0.str() << ", updated " << path << ", is now " << g.str());
    count("growth_steps");
  }
  eval(); distinct(Hash().add((uint64_t)x0).add((uint64_t)x1).add((uint64_t)y0).add((uint64_t)kind));
}

FAMILY(observers, 300, 6000) { // nobody keeps an observer alive but its owner
  auto cfg = make_cfg(rng);
  Hush hush;
  auto slam = make_slam(cfg);
  auto scene = Scene::room(rng, cfg.size / 2);
  struct SObs : GridScanMatcherObserver {};
  auto spe = std::make_shared<WeightedMeanPointProbabilitySPE>(
    std::make_shared<ObstacleBasedOccupancyObservationPE>(std::make_shared<OccupancyOIE>()), std::make_shared<EvenSPW>());
  HillClimbingScanMatcher sm{spe, 2, .1, .05};
  auto map = make_map(rng.range(2, 3), make_cell(2), {20, 20, .1});
  for (int rep = 0; rep < 3; ++rep) {
    auto p = std::make_shared<PObs>(); auto m = std::make_shared<MObs>(); auto q = std::make_shared<SObs>();
    slam->subscribe_pose(p); slam->subscribe_map(m); sm.subscribe(q);
    TransformedLaserScan t; t.quality = 1; t.pose_delta = RobotPoseDelta{0, 0, 0};
    t.scan = scene.scan({cfg.scale / 3, cfg.scale / 3, 0}, 12, cfg.size);
    RobotPoseDelta d;
    if (rng.chance(.7)) { slam->handle_sensor_data(t); sm.process_scan(t, {0, 0, 0}, *map, d); }
    std::weak_ptr<PObs> wp = p; std::weak_ptr<MObs> wm = m; std::weak_ptr<SObs> wq = q;
    p.reset(); m.reset(); q.reset();
    VF_CHECK(wp.expired() && wm.expired() && wq.expired(), "observer-kept", "an observer outlives its owner: pose " << wp.expired() << " map " << wm.expired() << " matcher " << wq.expired());
    if (rng.chance(.5)) { slam->handle_sensor_data(t); sm.process_scan(t, {0, 0, 0}, *map, d); }
    count("observers_released", 3);
  }
  eval(); distinct(Hash().add(cfg.what.size()).add(rng.next()));
}
VF_MAIN
