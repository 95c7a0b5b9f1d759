// C14: branch-and-bound multi-resolution matching against exhaustive search.
#include "scene_common.h"
#include "core/scan_matchers/bf_multi_res_scan_matcher.h"
using namespace vf;
REQUIRE_EVENTS("matchings", 1000)
REQUIRE_EVENTS("exhaustive_poses", 100000)
REQUIRE_EVENTS("corrections_found", 100)
REQUIRE_EVENTS("no_usable_points", 20)
REQUIRE_EVENTS("line_windows", 100)
REQUIRE_EVENTS("engine_matchings", 300)
REQUIRE_EVENTS("engine_two_requests", 50)
REQUIRE_EVENTS("reconfigured_matchers", 300)

namespace {
const char *kOOPE[] = {"max", "obstacle", "mean", "overlap"};
std::shared_ptr<OccupancyObservationProbabilityEstimator> make_oope(int k, std::shared_ptr<ObservationImpactEstimator> oie) {
  switch (k) {
  case 0: return std::make_shared<MaxOccupancyObservationPE>(oie);
  case 1: return std::make_shared<ObstacleBasedOccupancyObservationPE>(oie);
  case 2: return std::make_shared<MeanOccupancyObservationPE>(oie);
  default: return std::make_shared<OverlapWeightedOccupancyObservationPE>(oie);
  }
}
// impact of the worst (best) cell a point may be rounded into
struct RoundingOOPE : OccupancyObservationProbabilityEstimator {
  bool low;
  RoundingOOPE(std::shared_ptr<ObservationImpactEstimator> o, bool l) : OccupancyObservationProbabilityEstimator{o}, low{l} {}
  double probability(const AreaOccupancyObservation &aoo, const LightWeightRectangle &, const GridMap &map) const override {
    double r = low ? 2 : -1;
    for (int dx = -1; dx <= 1; dx += 2) for (int dy = -1; dy <= 1; dy += 2) {
      auto c = map.world_to_cell(aoo.obstacle.x + dx * 1e-8, aoo.obstacle.y + dy * 1e-8);
      if (!map.has_cell(c)) { c = map.world_to_cell(aoo.obstacle); }
      double v = observation_impact(map[c], aoo);
      r = low ? std::min(r, v) : std::max(r, v);
    }
    return r;
  }
};
struct M3 {
  std::unique_ptr<GridMap> map;
  Scene scene; double m; int kind, cell;
  std::shared_ptr<ObservationImpactEstimator> oie;
};
std::unique_ptr<GridMap> make_m3(int kind, bool multi, std::shared_ptr<ObservationImpactEstimator> oie, std::shared_ptr<GridCell> p, GridMapParams gp) {
  if (!multi) { return make_map(kind, p, gp); }
  switch (kind) {
  case 0: return std::make_unique<M3RSMRescalableGridMap<PlainGridMap>>(oie, p, gp);
  case 1: return std::make_unique<M3RSMRescalableGridMap<LazyTiledGridMap>>(oie, p, gp);
  case 2: return std::make_unique<M3RSMRescalableGridMap<UnboundedPlainGridMap>>(oie, p, gp);
  default: return std::make_unique<M3RSMRescalableGridMap<UnboundedLazyTiledGridMap>>(oie, p, gp);
  }
}
M3 world(Rng &rng, bool known) {
  M3 w; w.m = rng.pickd({0.1, 0.125, 0.2, 0.5});
  double cells = rng.uni(6, 12);
  w.scene = Scene::room(rng, w.m * cells);
  static const int models[] = {0, 1, 2, 3, 4};
  w.kind = rng.below(4); w.cell = models[rng.below(5)];
  if (w.cell == 3 || w.cell == 4 || rng.chance(0.6)) { w.oie = std::make_shared<DiscrepancyOIE>(); } else { w.oie = std::make_shared<OccupancyOIE>(); }
  bool multi = rng.chance(0.85);
  // covers everything the window can reach
  int half = (int)std::ceil(cells * 1.5) + 10;
  int init = known ? (is_unbounded(w.kind) && rng.chance(0.5) ? rng.range(1, 8) : half) : rng.range(1, half);
  w.map = make_m3(w.kind, multi, w.oie, make_cell(w.cell), {2 * init, 2 * init, w.m});
  if (known) {
    for (int x = -half; x < half; ++x) for (int y = -half; y < half; ++y) {
      w.map->update({x, y}, mk_obs(rng.chance(0.1) ? rng.uni(0, 0.6) : rng.uni(0, 0.2), 1, 1, false));
    }
    w.scene.draw(rng, *w.map, false);
  } else if (!rng.chance(0.1)) { w.scene.draw(rng, *w.map, false);
    Geo g{*w.map};
    for (int i = rng.range(0, 300); 0 < i; --i) {
      C c{(int)rng.range(-half, half), (int)rng.range(-half, half)};
      if (w.map->has_cell(c)) { w.map->update(c, mk_obs(rng.uni(0, 0.4), 1, 1, false)); }
    }
  }
  return w;
}
struct Win { double x, y, t, at, st; };
Win window(Rng &rng, double m, bool small) {
  Win w;
  w.x = rng.chance(0.15) ? 0 : m * rng.pickd({1, 2, rng.uni(0.2, 3)});
  w.y = rng.chance(0.15) ? 0 : m * rng.pickd({1, 2, rng.uni(0.2, 3)});
  w.st = m * (small ? rng.pickd({0.5, 1, rng.uni(0.25, 1.5)}) : rng.uni(0.2, 1));
  // whether a rectangle of just the step's size is split once more isn't specified
  for (double l : {w.x, w.y}) for (int n = 1; n <= 64; n *= 2) { if (std::abs(2 * l / n - w.st) < 1e-6) { w.st *= 1.07; } }
  w.at = rng.uni(0.01, 0.05);
  w.t = rng.chance(0.2) ? 0 : w.at * rng.pickd({1, 2, 2.5, 3});
  return w;
}
std::string ws(const Win &w) {
  std::ostringstream o; o << std::setprecision(10) << "window " << w.x << "," << w.y << "," << w.t << " steps " << w.st << "," << w.at; return o.str();
}
double score(std::shared_ptr<ScanProbabilityEstimator> spe, const LaserScan2D &fs, const RobotPose &p, const GridMap &m) {
  return spe->estimate_scan_probability(fs, p, m, ScanProbabilityEstimator::SPEParams{});
}
void one(Rng &rng, bool known) {
  auto w = world(rng, known);
  int oope = known ? 0 : rng.below(4), spw = rng.below(3);
  auto spe = std::make_shared<WeightedMeanPointProbabilitySPE>(make_oope(oope, w.oie), make_spw(spw));
  auto lo = std::make_shared<WeightedMeanPointProbabilitySPE>(std::make_shared<RoundingOOPE>(w.oie, true), make_spw(spw));
  auto hi = std::make_shared<WeightedMeanPointProbabilitySPE>(std::make_shared<RoundingOOPE>(w.oie, false), make_spw(spw));
  auto spe2 = std::make_shared<WeightedMeanPointProbabilitySPE>(make_oope(oope, w.oie), make_spw(spw)); // weights belong to the scan filtered last
  Win win = window(rng, w.m, known);
  bool reconf = rng.chance(0.3); // the window and the steps given after the construction
  BruteForceMultiResolutionScanMatcher sm = reconf ? BruteForceMultiResolutionScanMatcher{spe} : BruteForceMultiResolutionScanMatcher{spe, win.x, win.y, win.t, win.at, win.st};
  if (reconf) { sm.set_lookup_ranges(win.x, win.y, win.t); sm.set_target_accuracy(win.at, win.st); count("reconfigured_matchers"); }
  auto obs = std::make_shared<RecObs>(); sm.subscribe(obs);
  bool line = (win.x == 0) != (win.y == 0);
  struct Past { TransformedLaserScan scan; RobotPose init; double score; RobotPoseDelta d; };
  std::vector<Past> past;
  for (int rep = 0, reps = rng.range(1, 3); rep < reps; ++rep) {
    TransformedLaserScan scan; scan.quality = 1;
    RobotPose truth{rng.uni(-0.2, 0.2) * w.scene.size, rng.uni(-0.2, 0.2) * w.scene.size, rng.uni(-4, 4)};
    bool repeat = past.size() && rng.chance(0.4);
    RobotPose init;
    if (repeat) { scan = past[0].scan; init = past[0].init; }
    else {
      bool dense = rng.chance(0.01);
      int n = dense ? rng.range(257, 400) : rng.chance(0.1) ? rng.range(0, 1) : rng.range(3, 16);
      if (dense) { count("dense_scans"); }
      scan.scan = w.scene.scan(truth, n, w.scene.size * rng.pickd({0.05, 2, 2, 2, 2}), rng.pickd({2 * M_PI, 4, 2}));
      if (rng.chance(0.8)) { // otherwise points may sit exactly on cell borders
        for (auto &sp : scan.scan.points()) { sp = ScanPoint2D{sp.range() + rng.uni(0, 1e-3) * w.m, sp.angle(), sp.is_occupied()}; }
      } else { init = {}; }
      double k = rng.pickd({0, 0.5, 1});
      init = RobotPose{truth.x + k * rng.uni(-1, 1) * win.x, truth.y + k * rng.uni(-1, 1) * win.y, truth.theta + k * rng.uni(-1, 1) * win.t};
      if (rng.chance(0.1)) { init = RobotPose{std::round(init.x / w.m) * w.m, std::round(init.y / w.m) * w.m, std::round(init.theta / M_PI_2) * M_PI_2}; }
    }
    std::ostringstream o;
    o << kMapKinds[w.kind] << " scale " << w.m << " " << kCells[w.cell] << " oope " << kOOPE[oope] << " spw " << spw << " " << ws(win) << " init " << ps(init)
      << " points " << scan.scan.points().size() << " matching #" << rep;
    auto what = o.str();
    auto raw0 = snap(scan.scan); auto dig = map_digest(*w.map); double scale0 = w.map->scale(); auto init0 = init;
    obs->ev.clear();
    RobotPoseDelta d{99, 99, 99}; double v;
    { MuteLog mute; v = sm.process_scan(scan, init, *w.map, d); }
    count("matchings"); if (line) { count("line_windows"); }
    VF_CHECK(eq(snap(scan.scan), raw0), "scan-modified", what);
    VF_CHECK(w.map->scale() == scale0, "scale-left", what << ": scale " << w.map->scale());
    VF_CHECK(map_digest(*w.map) == dig, "map-modified", what);
    VF_CHECK(same_pose(init, init0, 0), "init-modified", what);
    MuteLog mute;
    auto fs = lo->filter_scan(scan.scan, init, *w.map); hi->filter_scan(scan.scan, init, *w.map);
    VF_CHECK(obs->ev.size() == 2 && obs->ev[0].kind == 's' && obs->ev[1].kind == 'e', "observers", what << ": " << obs->ev.size() << " notifications");
    VF_CHECK(same_pose(obs->ev[0].pose, init, 0), "observers", what);
    VF_CHECK(near(obs->ev[1].v, v, 0) && near(obs->ev[1].pose.x, d.x) && near(obs->ev[1].pose.y, d.y) && near(obs->ev[1].pose.theta, d.theta), "observers", what << ": end");
    double v0 = score(lo, fs, init, *w.map);
    if (std::isnan(v0)) {
      count("no_usable_points");
      VF_CHECK(std::isnan(v) || fs.points().size(), "score-from-nothing", what << ": " << v);
      if (fs.points().empty()) { VF_CHECK(!d, "moved-without-knowledge", what << " " << d); }
      eval(); continue;
    }
    VF_CHECK(std::abs(d.x) <= win.x + 1e-9 && std::abs(d.y) <= win.y + 1e-9 && std::abs(d.theta) <= win.t + 1e-7, "outside-window", what << ": " << d);
    double k = d.theta / win.at;
    VF_CHECK(std::abs(k - std::round(k)) < 1e-6, "off-lattice-rotation", what << ": " << d);
    RobotPose rp{init.x + d.x, init.y + d.y, init.theta + d.theta};
    double lo_v = score(lo, fs, rp, *w.map), hi_v = score(hi, fs, rp, *w.map);
    VF_CHECK(lo_v - 1e-9 <= v && v <= hi_v + 1e-9, "score-not-true", what << ": reported " << v << " but " << ps(rp) << " scores " << lo_v << ".." << hi_v);
    VF_CHECK(v0 <= v + 1e-6, "worse-than-initial", what << ": " << v << " < " << v0);
    if (d) { count("corrections_found"); }
    double global = std::nan("");
    if (known) {
      auto parts = [&](double lim) { int n = 1; while (win.st + 1e-12 < 2 * lim / n) { n *= 2; } return n; };
      int nx = parts(win.x), ny = parts(win.y), nt = (int)std::floor(win.t / win.at + 1e-6);
      double best = -1; RobotPose bp;
      for (int t = -nt; t <= nt; ++t) for (int x = 0; x <= nx; ++x) for (int y = 0; y <= ny; ++y) for (int c = 0; c < 2; ++c) {
        // corners and the centres of the finest rectangles
        if (c && ((x == nx && win.x) || (y == ny && win.y))) { continue; }
        RobotPose p{init.x - win.x + (x + 0.5 * c) * 2 * win.x / nx, init.y - win.y + (y + 0.5 * c) * 2 * win.y / ny, init.theta + t * win.at};
        double s = score(lo, fs, p, *w.map); count("exhaustive_poses");
        if (best < s) { best = s; bp = p; }
      }
      VF_CHECK(best <= v + 1e-5, "missed-maximum", what << ": found " << v << " at " << d << " but " << ps(bp) << " scores " << best);
      count("exhaustive_searches"); global = best;
    }
    if (rng.chance(0.4)) { // the engine on its own: scans turned in advance or not, one request or several
      bool pre = rng.chance(0.3), two = rng.chance(0.4);
      M3RSMEngine e; // reused after a reset
      RobotPose other{init.x + rng.uni(-1, 1) * win.x, init.y + rng.uni(-1, 1) * win.y, init.theta + rng.uni(-1, 1) * win.t};
      for (int round = 0; round < 2; ++round) {
        SafeRescalableMap rm{*w.map};
        e.reset_engine_state(); e.set_translation_lookup_range(win.x, win.y); e.set_rotation_lookup_range(2 * win.t, win.at);
        if (two) { e.add_scan_matching_request(spe2, other, scan.scan, rm, pre); static_cast<GridMap &>(rm).rescale(0); }
        e.add_scan_matching_request(spe, init, scan.scan, rm, pre);
        auto m = e.next_best_match(win.st);
        while (m.is_valid() && !m.is_finest()) {
          auto pts = m.translation_drift.corners(); pts.push_back(m.translation_drift.center());
          for (auto &p : pts) { e.add_match(Match{M3RSMEngine::Rect{p}, m}); }
          m = e.next_best_match(win.st);
        }
        auto ew = what + (pre ? " turned in advance" : " as it is") + (two ? " two requests" : "") + " engine";
        VF_CHECK(m.is_valid(), "engine-nothing", ew);
        static_cast<GridMap &>(rm).rescale(0); // the last candidate may have left a coarser level
        RobotPose from = *m.pose; auto c = m.translation_drift.center();
        VF_CHECK(m.pose == &init || (two && m.pose == &other), "engine-owner", ew);
        VF_CHECK(std::abs(c.x) <= win.x + 1e-9 && std::abs(c.y) <= win.y + 1e-9 && std::abs(m.rotation) <= win.t + 1e-7, "engine-window", ew << c << " " << m.rotation);
        auto efs = lo->filter_scan(scan.scan, from, *w.map); hi->filter_scan(scan.scan, from, *w.map);
        RobotPose ep{from.x + c.x, from.y + c.y, from.theta + m.rotation};
        double elo = score(lo, efs, ep, *w.map), ehi = score(hi, efs, ep, *w.map);
        VF_CHECK(elo - 1e-9 <= m.prob_upper_bound && m.prob_upper_bound <= ehi + 1e-9, "engine-score", ew << ": reported " << m.prob_upper_bound << " but " << ps(ep) << " scores " << elo << ".." << ehi);
        if (known) { VF_CHECK(global <= m.prob_upper_bound + 1e-5, "engine-missed-maximum", ew << ": found " << m.prob_upper_bound << " but there's " << global); }
        VF_CHECK(v0 <= m.prob_upper_bound + 1e-6, "engine-worse-than-initial", ew << ": " << m.prob_upper_bound << " < " << v0);
        count("engine_matchings"); if (two) { count("engine_two_requests"); }
      }
    }
    if (repeat) {
      VF_CHECK(v == past[0].score && d.x == past[0].d.x && d.y == past[0].d.y && d.theta == past[0].d.theta, "depends-on-history",
               what << ": first " << past[0].d << " " << past[0].score << " now " << d << " " << v);
      count("repeated");
    }
    past.push_back({scan, init, v, d});
    distinct(Hash().add(init.x).add(v).add(d.x).add(d.theta));
    eval();
    if (rng.chance(0.005)) { sample(what + " -> " + std::to_string(d.x) + "," + std::to_string(d.y) + "," + std::to_string(d.theta) + " score " + std::to_string(v)); }
  }
}
} // namespace
FAMILY(known, 2000, 16000) { one(rng, true); }
FAMILY(partial, 3000, 40000) { one(rng, false); }
VF_MAIN
