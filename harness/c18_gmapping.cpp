// C18: GMapping particles follow odometry rigidly, stay independent and finite.
#include "scene_common.h"
#include "slams/gmapping/init_gmapping.h"
using namespace vf;
REQUIRE_EVENTS("particle_matchings", 10000)
REQUIRE_EVENTS("heaviest_checked", 800)
REQUIRE_EVENTS("resampled_histories", 60)
REQUIRE_EVENTS("noisy_matchings", 1500)
REQUIRE_EVENTS("hostile_scans", 250)
REQUIRE_EVENTS("world_steps", 250)

namespace {
using GMap = GmappingWorld::MapType;
struct Call { RobotPose pose; const GridMap *map; uint64_t dig; RobotPoseDelta d; double p; };
uint64_t digest(const GridMap &m) { // content only, whatever the extent
  Hash h; Geo g{m};
  for (int x = 0; x < g.w; ++x) for (int y = 0; y < g.h; ++y) {
    auto c = m.internal2external({x, y});
    double v = m[c].occupancy().prob_occ;
    if (v != -1) { h.add(c.x).add(c.y).add(v); for (char b : m[c].serialize()) { h.add((uint64_t)(unsigned char)b); } } // with the counters
  }
  return h.h;
}
struct ScriptSM : GridScanMatcher {
  Rng rng; double pmin = 0.8, pmax = 1, fixed = -1, blind = 0; bool move = true, dominant = false; int n = 0;
  std::vector<Call> calls;
  ScriptSM(uint64_t s) : GridScanMatcher{nullptr}, rng{s} {}
  double process_scan(const TransformedLaserScan &, const RobotPose &pose, const GridMap &m, RobotPoseDelta &d) override {
    d = move ? RobotPoseDelta{rng.uni(-.3, .3), rng.uni(-.3, .3), rng.uni(-1, 1)} : RobotPoseDelta{};
    double p = 0 <= fixed ? fixed : rng.uni(pmin, pmax);
    if (dominant && fixed < 0) { p = rng.chance(0.3) ? 1 : rng.chance(0.2) ? 0 : 0.01; }
    if (0 < blind && rng.chance(blind)) { p = std::nan(""); count("blind_matchings"); } // nothing usable to judge by
    calls.push_back({pose, &m, digest(m), d, p});
    return p;
  }
};
struct RecAdder : GridMapScanAdder {
  struct A { const GridMap *map; RobotPose pose; size_t beams; double q; uint64_t dig; };
  mutable std::vector<A> adds; size_t expect = 0;
  using GridMapScanAdder::GridMapScanAdder;
  void handle_scan_point(GridMap &m, bool o, double q, const Segment2D &b) const override {
    double th = std::atan2(b.end().y - b.beg().y, b.end().x - b.beg().x);
    if (adds.empty() || adds.back().map != &m) { adds.push_back({&m, {b.beg().x, b.beg().y, th}, 0, q, 0}); }
    ++adds.back().beams;
    m.update(m.world_to_cell(b.end()), mk_obs(o ? 0.9 : 0.1, 1, q, o, b.end()));
    if (expect <= adds.back().beams) { adds.back().dig = digest(m); }
  }
};
struct Part { RobotPose pose, odo; double w; uint64_t dig; bool first = true; };
RobotPose advance(const Part &p, const RobotPoseDelta &d) {
  double a = p.pose.theta - p.odo.theta, c = std::cos(a), s = std::sin(a);
  return {p.pose.x + c * d.x - s * d.y, p.pose.y + s * d.x + c * d.y, p.pose.theta + d.theta};
}
LaserScan2D one_scan(Rng &rng) {
  LaserScan2D s; // first point straight ahead: its beam tells the heading used
  s.points().emplace_back(2.0, 0.0, true);
  for (int i = rng.below(4); i; --i) { s.points().emplace_back(rng.uni(.5, 3), rng.uni(-3, 3), rng.chance(0.8)); }
  return s;
}
bool adiff(double a, double b) { return std::abs(std::remainder(a - b, 2 * M_PI)) < 1e-6; }
struct PObs : WorldPoseObserver { std::vector<RobotPose> v; void on_pose_update(const RobotPose &p) override { v.push_back(p); } };
struct MObs : WorldMapObserver<GridMap> { std::vector<const GridMap *> v; void on_map_update(const GridMap &m) override { v.push_back(&m); } };
} // namespace

FAMILY(population, 320, 8000) {
  bool crowd = rng.chance(0.04);
  int n = crowd ? rng.range(40, 70) : rng.chance(0.1) ? 1 : rng.range(2, 12);
  if (crowd) { count("crowds"); }
  bool noisy = rng.chance(0.3), resampling = rng.chance(0.6);
  SingleStateHypothesisLSGWProperties pr{1.0, 1.0, 0, nullptr, nullptr, nullptr};
  pr.grid_map = std::make_shared<GMap>(std::make_shared<GmappingBaseCell>(), GridMapParams{10, 10, rng.pickd({0.5, 1})});
  auto sm = std::make_shared<ScriptSM>(rng.next()); pr.gsm = sm;
  auto ad = std::make_shared<RecAdder>(std::make_shared<ConstOccupancyEstimator>(Occupancy{.95, 1}, Occupancy{.01, 1}), std::make_shared<IdleOMQE>());
  pr.gmsa = ad;
  double sx = noisy ? 0.05 : 0, st = noisy ? 0.02 : 0;
  GmappingParticleFilter f{pr, GMappingParams{0, sx, 0, st, 0, 0, 0, 0}, (unsigned)n};
  auto po = std::make_shared<PObs>(); auto mo = std::make_shared<MObs>();
  f.subscribe_pose(po); f.subscribe_map(mo);
  uint64_t empty = digest(*pr.grid_map);
  std::vector<Part> parts(n);
  for (auto &p : parts) { p.w = 1.0 / n; p.dig = empty; }
  bool weights_known = true, was_known = true, mixed = false;
  for (int t = 0, steps = rng.chance(0.03) ? rng.range(30, 60) : rng.range(3, 10); t < steps; ++t) {
    TransformedLaserScan ts; ts.scan = one_scan(rng); ts.quality = rng.chance(.4) ? 1 : rng.uni(.2, 1);
    ts.pose_delta = rng.chance(0.15) ? RobotPoseDelta{} : RobotPoseDelta{rng.uni(-1, 1), rng.uni(-1, 1), rng.uni(-1, 1)};
    sm->calls.clear(); ad->adds.clear(); ad->expect = ts.scan.points().size();
    sm->dominant = resampling && rng.chance(0.6);
    sm->blind = t && rng.chance(0.15) ? rng.pickd({0.3, 1}) : 0;
    sm->fixed = t == 0 ? 0.5 : rng.chance(0.1) ? rng.pickd({0, 1, 0.3}) : -1;
    f.handle_sensor_data(ts);
    std::ostringstream os; os << "n " << n << " step " << t << " odometry " << ts.pose_delta << (noisy ? " noisy" : "") << (mixed ? " resampled" : "");
    auto what = os.str();
    VF_CHECK((int)sm->calls.size() == n, "matchings", what << ": " << sm->calls.size() << " particles matched the scan");
    // who is who: by map content (noise-free: and pose)
    std::vector<Part> now; std::vector<int> anc; std::vector<bool> used(n, false);
    std::set<const GridMap *> maps; int undisturbed = 0;
    for (auto &c : sm->calls) {
      VF_CHECK(maps.insert(c.map).second, "shared-map", what << ": two particles use one map");
      int who = -1; double best = 1e9;
      for (int pass = 0; pass < 2 && who < 0; ++pass) for (int i = 0; i < n; ++i) {
        if (pass == 0 && used[i]) { continue; }
        if (parts[i].dig != c.dig) { continue; }
        auto e = advance(parts[i], ts.pose_delta);
        double dist = std::hypot(e.x - c.pose.x, e.y - c.pose.y) + std::abs(e.theta - c.pose.theta);
        if (dist < best && dist < (noisy && t ? 1.2 : 1e-6)) { best = dist; who = i; }
      }
      VF_CHECK(0 <= who, noisy ? "stray-particle" : "not-rigid", what << ": a particle matched at " << ps(c.pose) << " with map " << c.dig
               << "; no former particle leads there");
      used[who] = true;
      for (int i = 0; i < n; ++i) { // maps of several particles may look the same
        auto e = advance(parts[i], ts.pose_delta);
        if (parts[i].dig == c.dig && std::hypot(e.x - c.pose.x, e.y - c.pose.y) + std::abs(e.theta - c.pose.theta) < 1e-7) { ++undisturbed; break; }
      }
      Part p = parts[who];
      p.pose = RobotPose{c.pose.x + c.d.x, c.pose.y + c.d.y, c.pose.theta + c.d.theta};
      p.odo = RobotPose{p.odo.x + ts.pose_delta.x, p.odo.y + ts.pose_delta.y, p.odo.theta + ts.pose_delta.theta};
      p.w = parts[who].w * (p.first || std::isnan(c.p) ? 1 : c.p);
      now.push_back(p); anc.push_back(who);
      count("particle_matchings"); eval();
    }
    bool bij = std::set<int>(anc.begin(), anc.end()).size() == anc.size();
    if (!bij) { if (!mixed) { count("resampled_histories"); } mixed = true; VF_CHECK(!weights_known, "resampled-needlessly", what); }
    if (!bij) for (int i : anc) { VF_CHECK(0 < parts[i].w || !was_known, "dead-ancestor", what); }
    if (noisy && t) {
      for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) {
        VF_CHECK(anc[i] != anc[j] || !(sm->calls[i].pose.x == sm->calls[j].pose.x && sm->calls[i].pose.y == sm->calls[j].pose.y),
                 "same-noise", what << ": two copies of a particle drew the same noise, both at " << ps(sm->calls[i].pose));
      }
      VF_CHECK(undisturbed == 1, "master", what << ": " << undisturbed << " particles were matched without noise, want just the master");
      count("noisy_matchings", n);
    }
    // integration: each into its own map, at its own corrected pose
    std::map<const GridMap *, int> added;
    for (auto &a : ad->adds) {
      int k = -1;
      for (int i = 0; i < n; ++i) { if (sm->calls[i].map == a.map) { k = i; } }
      VF_CHECK(0 <= k, "foreign-map", what << ": a map no particle matched with was updated");
      VF_CHECK(!added[a.map]++, "integrated-twice", what);
      VF_CHECK(near(a.pose.x, now[k].pose.x) && near(a.pose.y, now[k].pose.y) && adiff(a.pose.theta, now[k].pose.theta),
               "integrated-at", what << ": " << ps(a.pose) << " want " << ps(now[k].pose));
      VF_CHECK(a.beams == ts.scan.points().size(), "integrated-beams", what << ": " << a.beams);
      VF_CHECK(a.q == ts.quality, "integrated-quality", what << ": " << a.q << " of a scan of quality " << ts.quality);
    }
    double tot = 0;
    for (int i = 0; i < n; ++i) {
      bool want = now[i].first || 0 < sm->calls[i].p;
      VF_CHECK((added.count(sm->calls[i].map) != 0) == want, "integration", what << ": score " << sm->calls[i].p << (want ? ", not integrated" : ", integrated"));
      now[i].first = false;
      tot += now[i].w;
    }
    VF_CHECK(std::isfinite(f.pose().x) && std::isfinite(f.pose().y) && std::isfinite(f.pose().theta), "pose-not-finite", what);
    VF_CHECK((int)po->v.size() == t + 1 && same_pose(po->v.back(), f.pose(), 0) && (int)mo->v.size() == t + 1 && mo->v.back() == &f.map(), "notified", what);
    double mx = -1, sq = 0;
    for (auto &p : now) { p.w = 0 < tot ? p.w / tot : 1.0 / n; mx = std::max(mx, p.w); sq += p.w * p.w; }
    for (int i = 0; i < n; ++i) {
      now[i].dig = sm->calls[i].dig;
      for (auto &x : ad->adds) { if (x.map == sm->calls[i].map) { now[i].dig = x.dig; } }
    }
    int rep = -1; bool heavy = false, own = false;
    uint64_t rd = digest(f.map());
    for (int i = 0; i < n; ++i) {
      if (!same_pose(now[i].pose, f.pose(), 1e-9)) { continue; }
      rep = i;
      heavy = heavy || near(now[i].w, mx, 1e-6); own = own || now[i].dig == rd;
    }
    VF_CHECK(0 <= rep, "reported-pose", what << ": " << ps(f.pose()) << " is no particle's pose");
    VF_CHECK(own, "reported-map", what << ": the reported map is not the reported particle's");
    if (weights_known && !(2 / sq < n + 1e-6)) {
      VF_CHECK(heavy, "not-heaviest", what << ": reported particle has weight " << now[rep].w << ", the heaviest " << mx);
      count("heaviest_checked");
    }
    was_known = weights_known;
    if (2 / sq < n + 1e-6) { weights_known = false; }
    parts = now;
    distinct(Hash().add(f.pose().x).add(f.pose().y).add(n));
  }
}

// when particles match: after the configured way or turn since their last matching
FAMILY(limits, 300, 6000) {
  unsigned n = rng.chance(0.03) ? rng.range(30, 60) : rng.range(1, 8);
  double way_lo = rng.uni(.1, 1), way_hi = way_lo * rng.pickd({1, 1, 1.5}), turn_lo = rng.uni(.05, .6), turn_hi = turn_lo * rng.pickd({1, 1, 1.5});
  SingleStateHypothesisLSGWProperties pr{1.0, 1.0, 0, nullptr, nullptr, nullptr};
  pr.grid_map = std::make_shared<GMap>(std::make_shared<GmappingBaseCell>(), GridMapParams{10, 10, 1});
  auto sm = std::make_shared<ScriptSM>(rng.next()); sm->move = false; sm->fixed = 1; pr.gsm = sm;
  pr.gmsa = std::make_shared<RecAdder>(std::make_shared<ConstOccupancyEstimator>(Occupancy{.95, 1}, Occupancy{.01, 1}), std::make_shared<IdleOMQE>());
  GmappingParticleFilter f{pr, GMappingParams{0, 0, 0, 0, way_lo, way_hi, turn_lo, turn_hi}, n};
  struct Moved { double way = 0, turn = 0; int matched = 0; };
  std::map<const GridMap *, Moved> seen; Moved unseen; const GridMap *master = nullptr;
  int how = rng.below(3);
  std::ostringstream os; os << "n " << n << " way " << way_lo << ".." << way_hi << " turn " << turn_lo << ".." << turn_hi; std::string what = os.str();
  for (int t = 0, steps = rng.range(6, 25); t < steps; ++t) {
    TransformedLaserScan ts; ts.scan = one_scan(rng); ts.quality = 1;
    double l = how == 1 ? 0 : rng.uni(0, way_lo), dir = rng.uni(-3, 3), a = how == 0 ? 0 : rng.uni(-1, 1) * turn_lo * .8;
    ts.pose_delta = RobotPoseDelta{l * std::cos(dir), l * std::sin(dir), a};
    sm->calls.clear();
    f.handle_sensor_data(ts);
    auto add = [&](Moved &m) { m.way += l; m.turn += std::abs(a); };
    for (auto &s : seen) { add(s.second); }
    add(unseen);
    std::set<const GridMap *> now;
    for (auto &c : sm->calls) { VF_CHECK(now.insert(c.map).second, "matched-twice", what << " step " << t); }
    auto must_not = [&](const Moved &m) { return m.way < way_lo * (1 - 1e-9) && m.turn < turn_lo * (1 - 1e-9); };
    auto must = [&](const Moved &m) { return 2.01 * way_hi <= m.way || turn_hi * (1 + 1e-9) <= m.turn; };
    Moved unseen_now = unseen; size_t before = seen.size();
    for (auto *m : now) {
      auto i = seen.find(m);
      if (i == seen.end()) {
        VF_CHECK(!must_not(unseen_now), "matched-early", what << " step " << t << ": a first matching after " << unseen_now.way << " m, " << unseen_now.turn << " rad");
        seen[m].matched = 1; continue;
      }
      if (must_not(i->second)) { // only the master's business
        VF_CHECK(!master || master == m, "matched-early", what << " step " << t << ": again after " << i->second.way << " m, " << i->second.turn << " rad");
        master = m; count("master_steps");
      } else { count("due_matchings"); }
      i->second = Moved{0, 0, i->second.matched + 1};
    }
    for (auto &s : seen) {
      VF_CHECK(now.count(s.first) || !must(s.second), "matched-late", what << " step " << t << ": no matching after " << s.second.way << " m, " << s.second.turn << " rad");
    }
    VF_CHECK(seen.size() <= n, "particles", what << ": " << seen.size());
    VF_CHECK(!must(unseen_now) || seen.size() == n, "matched-late", what << " step " << t << ": " << n - seen.size() << " particles still wait after "
             << unseen_now.way << " m, " << unseen_now.turn << " rad");
    if (before < seen.size()) { count("first_matchings", seen.size() - before); }
    eval();
  }
  distinct(Hash().add(way_lo).add(turn_lo).add((uint64_t)n));
}
// a particle that has all the weight replaces the others
FAMILY(takeover, 200, 4000) {
  struct WinnerSM : ScriptSM { using ScriptSM::ScriptSM; int winner = -1;
    double process_scan(const TransformedLaserScan &s, const RobotPose &p, const GridMap &m, RobotPoseDelta &d) override {
      ScriptSM::process_scan(s, p, m, d); int i = calls.size() - 1;
      return calls.back().p = winner < 0 ? 1 : i == winner ? 1 : 0; } };
  int n = rng.range(3, 10);
  SingleStateHypothesisLSGWProperties pr{1.0, 1.0, 0, nullptr, nullptr, nullptr};
  pr.grid_map = std::make_shared<GMap>(std::make_shared<GmappingBaseCell>(), GridMapParams{10, 10, 1});
  auto sm = std::make_shared<WinnerSM>(rng.next()); pr.gsm = sm;
  pr.gmsa = std::make_shared<RecAdder>(std::make_shared<ConstOccupancyEstimator>(Occupancy{.95, 1}, Occupancy{.01, 1}), std::make_shared<IdleOMQE>());
  GmappingParticleFilter f{pr, GMappingParams{0, 0, 0, 0, 0, 0, 0, 0}, (unsigned)n};
  Part heir; bool have = false; RobotPose odo; double way = 0;
  for (int t = 0, steps = rng.range(3, 8); t < steps; ++t) {
    TransformedLaserScan ts; ts.scan = one_scan(rng); ts.quality = 1;
    // long ways and, once the robot moved on enough, also short ones
    bool small = t && 1.2 < way && rng.chance(.4);
    double dir = rng.uni(-3, 3), l = small ? rng.uni(0, 0.1) : rng.uni(1.2, 2);
    ts.pose_delta = RobotPoseDelta{l * std::cos(dir), l * std::sin(dir), small ? rng.uni(-.05, .05) : rng.uni(-1, 1)};
    way += l; // the filter adds up the axes' ways, that's never less
    sm->calls.clear(); sm->winner = t && 1.2 < way && rng.chance(.6) ? rng.below(n) : -1;
    if (0 <= sm->winner) { way = 0; if (small) { count("takeovers_on_short_ways"); } }
    f.handle_sensor_data(ts);
    odo = RobotPose{odo.x + ts.pose_delta.x, odo.y + ts.pose_delta.y, odo.theta + ts.pose_delta.theta};
    VF_CHECK((int)sm->calls.size() == n, "matchings", sm->calls.size() << " of " << n);
    if (have) {
      auto e = advance(heir, ts.pose_delta);
      for (auto &c : sm->calls) { VF_CHECK(same_pose(c.pose, e, 1e-6), "not-taken-over", "step " << t << ": a particle matched at " << ps(c.pose) << ", the only one of weight before leads to " << ps(e)); }
      count("takeovers"); eval();
    }
    have = 0 <= sm->winner;
    if (have) {
      auto &c = sm->calls[sm->winner];
      heir.pose = RobotPose{c.pose.x + c.d.x, c.pose.y + c.d.y, c.pose.theta + c.d.theta}; heir.odo = odo;
      VF_CHECK(same_pose(f.pose(), heir.pose, 1e-9), "winner-reported", ps(f.pose()) << " want " << ps(heir.pose));
    }
    distinct(Hash().add(f.pose().x).add((uint64_t)n));
  }
}
// copies made before a particle had its first scan are as independent as later ones
FAMILY(late_copies, 400, 5000) {
  int n = rng.range(3, 10);
  SingleStateHypothesisLSGWProperties pr{1.0, 1.0, 0, nullptr, nullptr, nullptr};
  pr.grid_map = std::make_shared<GMap>(std::make_shared<GmappingBaseCell>(), GridMapParams{10, 10, 1});
  auto sm = std::make_shared<ScriptSM>(rng.next()); sm->fixed = rng.chance(.3) ? 0.01 : n; pr.gsm = sm; // those that matched lose or gain weight
  auto ad = std::make_shared<RecAdder>(std::make_shared<ConstOccupancyEstimator>(Occupancy{.95, 1}, Occupancy{.01, 1}), std::make_shared<IdleOMQE>());
  pr.gmsa = ad;
  double lo = rng.uni(.1, .5), hi = rng.uni(2, 8), sx = rng.chance(.5) ? 0.05 : 0;
  GmappingParticleFilter f{pr, GMappingParams{0, sx, 0, sx, lo, hi, 100, 100}, (unsigned)n};
  std::set<uint64_t> known{digest(*pr.grid_map)};
  std::string what = "n " + std::to_string(n) + " limits " + std::to_string(lo) + ".." + std::to_string(hi);
  for (int t = 0, steps = rng.range(8, 30); t < steps; ++t) {
    TransformedLaserScan ts; ts.scan = one_scan(rng); ts.quality = 1;
    double dir = rng.uni(-3, 3), l = rng.uni(.3, .9);
    ts.pose_delta = RobotPoseDelta{l * std::cos(dir), l * std::sin(dir), rng.uni(-.3, .3)};
    sm->calls.clear(); ad->adds.clear(); ad->expect = ts.scan.points().size();
    f.handle_sensor_data(ts);
    VF_CHECK((int)sm->calls.size() <= n, "matchings", what << " step " << t << ": " << sm->calls.size());
    std::set<const GridMap *> maps;
    for (auto &c : sm->calls) {
      VF_CHECK(maps.insert(c.map).second, "shared-map", what << " step " << t << ": two particles use one map");
      VF_CHECK(known.count(c.dig), "foreign-content", what << " step " << t << ": a particle's map holds what no particle mapped");
      count("late_matchings"); eval();
    }
    maps.clear();
    for (auto &a : ad->adds) {
      VF_CHECK(maps.insert(a.map).second, "integrated-twice", what << " step " << t);
      known.insert(a.dig);
    }
    VF_CHECK(known.count(digest(f.map())), "reported-map", what << " step " << t);
  }
  distinct(Hash().add(f.pose().x).add((uint64_t)n));
}
REQUIRE_EVENTS("late_matchings", 5000)
REQUIRE_EVENTS("takeovers_on_short_ways", 50)
REQUIRE_EVENTS("takeovers", 100)
REQUIRE_EVENTS("due_matchings", 500)
REQUIRE_EVENTS("master_steps", 200)

// real components on hostile scans: single particles (whose weight can be read) and whole filters
namespace {
MapPropertiesProvider rnd_props(Rng &rng, unsigned n) {
  MapPropertiesProvider p;
  auto set = [&](const std::string &k, double v) { p.set_property(k, std::to_string(v)); };
  p.set_property("slam/particles/number", std::to_string(n));
  p.set_property("slam/scmtch/spe/type", "wmpp");
  p.set_property("slam/scmtch/spe/wmpp/weighting/type", std::vector<std::string>{"even", "viny", "ahr"}[rng.below(3)]);
  p.set_property("slam/occupancy_estimator/type", rng.chance(0.5) ? "const" : "area");
  set("slam/map/height_in_meters", 4); set("slam/map/width_in_meters", 4);
  set("slam/map/meters_per_cell", rng.pickd({0.1, 0.2}));
  double lim = rng.chance(0.7) ? 0 : 0.2;
  set("slam/particles/sm_delta_lim/xy/min", lim); set("slam/particles/sm_delta_lim/xy/max", lim * 1.5);
  set("slam/particles/sm_delta_lim/theta/min", lim); set("slam/particles/sm_delta_lim/theta/max", lim * 1.5);
  if (rng.chance(0.5)) { set("slam/particles/sample/xy/sigma", 0); set("slam/particles/sample/theta/sigma", 0); }
  return p;
}
LaserScan2D hostile(Rng &rng, const Scene &sc, const RobotPose &truth, int &kind) {
  LaserScan2D s;
  kind = rng.below(9);
  switch (kind) {
  case 0: return s;
  case 1: for (int i = 0; i < 9; ++i) { s.points().emplace_back(3, i * 0.3, false); } return s; // nothing seen
  case 2: s.points().emplace_back(rng.uni(.2, 3), rng.uni(-3, 3), true); return s;
  case 3: for (int i = 0; i < 6; ++i) { s.points().emplace_back(0, i * 0.3, true); } return s;
  case 4: for (int i = 0; i < 12; ++i) { s.points().emplace_back(rng.uni(0, 6), rng.uni(-3, 3), rng.chance(0.5)); } return s; // contradictory
  case 5: for (int i = 0; i < 5; ++i) { s.points().emplace_back(1.5, 0.7, true); } return s; // coincident
  default: return sc.scan(truth, rng.range(8, 30), 6);
  }
}
}
FAMILY(hostile, 160, 1500) {
  MuteLog mute;
  unsigned n = rng.range(1, 3);
  auto props = rnd_props(rng, n);
  auto scene = Scene::room(rng, 3);
  auto f = init_gmapping(props);
  // a lone particle on the same components
  SingleStateHypothesisLSGWProperties pr{1, 1, 0, std::make_shared<GMap>(std::make_shared<GmappingBaseCell>(), init_grid_map_params(props)),
    std::make_shared<HillClimbingScanMatcher>(init_gmapping_prob_estimator(props), 6, 0.1, 0.1), init_scan_adder(props)};
  GmappingWorld w{pr, init_gmapping_params(props)}, twin{pr, init_gmapping_params(props)};
  VF_CHECK(&w.map() != &twin.map(), "particles-share-map", "two particles have one map");
  uint64_t twin_dig = digest(twin.map());
  RobotPose truth{rng.uni(-.3, .3), rng.uni(-.3, .3), rng.uni(-3, 3)};
  std::string hist;
  for (int t = 0, steps = rng.range(4, 12); t < steps; ++t) {
    RobotPoseDelta d{rng.uni(-.15, .15), rng.uni(-.15, .15), rng.uni(-.1, .1)};
    if (rng.chance(0.03)) { d.x = 50; }
    truth += d;
    if (std::abs(truth.x) > 1.2) { truth.x = 0; }
    if (std::abs(truth.y) > 1.2) { truth.y = 0; }
    int kind;
    TransformedLaserScan ts; ts.scan = hostile(rng, scene, truth, kind); ts.pose_delta = d; ts.quality = 1;
    hist += std::to_string(kind);
    count("hostile_scans");
    std::string what = "scans " + hist;
    f->handle_sensor_data(ts);
    auto check_map = [&](const GridMap &m, const char *who) {
      Geo g{m};
      for (int i = 0; i < 300; ++i) {
        auto c = m.internal2external({(int)rng.below(g.w), (int)rng.below(g.h)});
        double v = m[c].occupancy().prob_occ;
        VF_CHECK(v == -1 || (0 <= v && v <= 1), std::string("map-value:") + who, what << ": cell " << cs(c) << " is " << v);
      }
    };
    auto check_pose = [&](const RobotPose &p, const char *who) {
      VF_CHECK(std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.theta), std::string("pose:") + who, what << ": " << ps(p));
    };
    check_pose(f->pose(), "filter"); check_map(f->map(), "filter");
    RobotPose before = w.pose(); double wb = w.weight();
    w.handle_sensor_data(ts);
    check_pose(w.pose(), "world"); check_map(w.map(), "world");
    VF_CHECK(std::isfinite(w.weight()) && 0 <= w.weight() && w.weight() <= wb * (1 + 1e-9), "weight", what << ": weight " << w.weight() << ", was " << wb);
    if (ts.scan.points().empty()) { VF_CHECK(near(w.weight(), wb), "weight-by-nothing", what << ": weight " << w.weight() << ", was " << wb); count("empty_scans"); }
    if (w.weight() == 0 || rng.chance(0.3)) { w.set_weight(1); }
    VF_CHECK(digest(twin.map()) == twin_dig, "twin-map", what << ": a particle changed another one's map");
    (void)before;
    count("world_steps"); eval();
    distinct(Hash().add(f->pose().x).add(w.weight()).add(kind));
  }
}
VF_MAIN
