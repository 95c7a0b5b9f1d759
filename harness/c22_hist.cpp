// C22: orientation histogram and ambiguous drift detector.
#include "scene_common.h"
#include "core/features/angle_histogram.h"
#include "core/scan_matchers/connect_the_dots_ambiguous_drift_detector.h"
#include "core/scan_matchers/hill_climbing_scan_matcher.h"
#include "core/scan_matchers/brute_force_scan_matcher.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#include "core/scan_matchers/occupancy_observation_probability.h"
#include "core/scan_matchers/weighted_mean_point_probability_spe.h"
using namespace vf;
REQUIRE_EVENTS("histograms", 20000)
REQUIRE_EVENTS("pairs_counted", 200000)
REQUIRE_EVENTS("nearly_aligned_pairs", 5000)
REQUIRE_EVENTS("coincident_pairs", 2000)
REQUIRE_EVENTS("short_scans", 1000)
REQUIRE_EVENTS("detector_runs", 300)
REQUIRE_EVENTS("detector_second_passes", 50)

namespace {
LaserScan2D rnd_scan(Rng &rng) {
  LaserScan2D s;
  int n = rng.chance(0.15) ? rng.below(3) : rng.chance(0.05) ? rng.range(200, 1500) : rng.range(3, 40);
  int style = rng.below(5);
  double x = rng.uni(-5, 5), y = rng.uni(-5, 5), dir = rng.uni(-M_PI, M_PI);
  for (int i = 0; i < n; ++i) {
    switch (style) {
    case 0: s.points().emplace_back(rng.uni(0, 20), rng.uni(-M_PI, M_PI), rng.chance(0.8)); continue;
    case 1: { // a walk along the axes and almost along them
      double l = rng.uni(0, 2), e = rng.chance(0.5) ? 0 : rng.pickd({1e-7, 1e-8, 3e-9, 1e-12, 1e-16, 1e-300, 5e-324}) * (rng.chance(0.5) ? 1 : -1);
      if (rng.chance(0.5)) { x += rng.chance(0.5) ? l : -l; y += e * l; } else { y += rng.chance(0.5) ? l : -l; x += e * l; }
    } break;
    case 2: if (rng.chance(0.5)) { x += rng.uni(-1, 1); y += rng.uni(-1, 1); } break; // repeated points
    case 3: { double l = rng.uni(-1, 1); x += l * std::cos(dir); y += l * std::sin(dir); } break; // a straight wall
    default: { // bin borders, tiny and huge steps
      double a = rng.range(0, 40) * M_PI / 20, l = rng.pickd({1, 1e-9, 1e-160, 1e6, 1e100, 0.3});
      if (l < 1e-100) { x = y = 0; }
      x += l * std::cos(a); y += l * std::sin(a);
    }
    }
    s.points().push_back(ScanPoint2D::make_cartesian({x, y}, rng.chance(0.8)));
  }
  return s;
}
} // namespace

FAMILY(histogram, 25000, 500000) {
  size_t res = rng.chance(0.6) ? 20 : rng.range(1, 200);
  AngleHistogram h{res};
  for (int round = 0, rn = rng.range(1, 3); round < rn; ++round) {
    auto s = rnd_scan(rng), s0 = s;
    h.reset(s);
    auto &p = s0.points();
    VF_CHECK(s.points().size() == p.size(), "scan-changed", s.points().size());
    double step = M_PI / res;
    VF_CHECK(near(h.angle_step(), step, 1e-14), "step", h.angle_step());
    // how many pairs each bin holds for certain, and at most (directions on a border may go either way)
    std::vector<unsigned> lo(res, 0), hi(res, 0);
    std::vector<std::vector<size_t>> bins(p.size());
    for (size_t i = 1; i < p.size(); ++i) {
      VF_CHECK(s.points()[i].x() == p[i].x() && s.points()[i].y() == p[i].y(), "scan-changed", i);
      double dx = p[i].x() - p[i - 1].x(), dy = p[i].y() - p[i - 1].y();
      double a = std::atan2(dy, dx);
      if (a < 0) { a += M_PI; }
      if (M_PI <= a || (dx == 0 && dy == 0)) { a = 0; }
      if (dx == 0 && dy == 0) { count("coincident_pairs"); }
      if (dx != 0 && dy != 0 && (std::abs(dy) < 1e-6 * std::abs(dx) || std::abs(dx) < 1e-6 * std::abs(dy))) { count("nearly_aligned_pairs"); }
      // acos loses up to 2e-8 near the x axis
      for (double e : {-5e-8, 0.0, 5e-8}) {
        double b = a + e;
        if (b < 0) { b += M_PI; }
        if (M_PI <= b) { b -= M_PI; }
        size_t k = std::min(res - 1, (size_t)(b / step));
        if (std::find(bins[i].begin(), bins[i].end(), k) == bins[i].end()) { bins[i].push_back(k); }
      }
      if (bins[i].size() == 1) { ++lo[bins[i][0]]; }
      for (auto k : bins[i]) { ++hi[k]; }
      count("pairs_counted");
    }
    unsigned long total = 0, best = 0, least = ~0ul;
    for (size_t k = 0; k < res; ++k) {
      unsigned long hk = h[k]; total += hk; best = std::max(best, hk); least = std::min(least, hk);
      VF_CHECK(lo[k] <= h[k] && h[k] <= hi[k], "bin", "bin " << k << " of " << res << " holds " << h[k] << ", want " << lo[k] << ".." << hi[k] << " (" << p.size() << " points)");
    }
    VF_CHECK(total == (p.size() ? p.size() - 1 : 0), "conservation", total << " pairs of " << p.size() << " points");
    VF_CHECK(h[h.max_i()] == best && h[h.min_i()] == least, "extremes", h[h.max_i()] << " " << h[h.min_i()]);
    for (size_t i = 1; i < p.size(); ++i) {
      auto v = h.value(p, i);
      bool ok = false;
      for (auto k : bins[i]) { ok = ok || v == h[k]; }
      VF_CHECK(ok && 0 < v, "lookup", "point " << i << ": value " << v << ", its bin holds " << h[bins[i][0]]);
      VF_CHECK(h.value(p, i) == v, "lookup-repeat", i);
    }
    if (p.size() < 3) { count("short_scans"); }
    if (2 <= p.size()) { // the mean direction of the fullest bin lies in the bin
      double a = h.major_direction(); size_t k = h.max_i();
      VF_CHECK(k * step - 1e-7 <= a && a <= (k + 1) * step + 1e-7, "major-direction", a << " of bin " << k);
      for (size_t k = 0; k < res; ++k) { // ... and is the mean of the directions counted there
        if (lo[k] != hi[k] || lo[k] == 0) { continue; }
        long double sum = 0; bool wraps = false;
        for (size_t i = 1; i < p.size(); ++i) {
          if (bins[i][0] != k) { continue; }
          long double d = std::atan2((long double)(p[i].y() - p[i - 1].y()), (long double)(p[i].x() - p[i - 1].x()));
          if (d < 0) { d += M_PIl; }
          wraps = wraps || (d != 0 && d < 1e-7) || M_PIl - 1e-7 < d; // to be read as either end
          if (p[i].y() == p[i - 1].y() || M_PIl <= d) { d = 0; }
          sum += d;
        }
        if (wraps) { continue; }
        double m = sum / lo[k];
        VF_CHECK(std::abs(h.mean_bin_angle(k) - m) < 2e-7, "mean-direction", "bin " << k << " of " << res << ": " << h.mean_bin_angle(k) << ", its pairs average " << m);
        if (k == h.max_i()) { VF_CHECK(a == h.mean_bin_angle(k), "major-direction", a << " vs " << h.mean_bin_angle(k)); }
        if (k == h.min_i()) { VF_CHECK(h.minor_direction() == h.mean_bin_angle(k), "minor-direction", h.minor_direction()); }
        count("mean_directions");
      }
    }
    AngleHistogram fresh{res}; auto copy = fresh.reset(s);
    for (size_t k = 0; k < res; ++k) { VF_CHECK(fresh[k] == h[k] && copy[k] == h[k], "history", "bin " << k << ": " << h[k] << ", a new histogram has " << fresh[k]); }
    if (2 <= p.size()) { VF_CHECK(fresh.major_direction() == h.major_direction(), "history-direction", h.major_direction()); }
    Hash d; for (size_t k = 0; k < res; ++k) { d.add(h[k]); }
    distinct(d); count("histograms"); eval();
  }
}

FAMILY(detector, 800, 16000) {
  auto matcher = [&](int inner, int w) {
    auto spe = std::make_shared<WeightedMeanPointProbabilitySPE>(
      std::make_shared<ObstacleBasedOccupancyObservationPE>(std::make_shared<OccupancyOIE>()), make_spw(w));
    std::shared_ptr<GridScanMatcher> sm;
    if (inner == 0) { sm = std::make_shared<HillClimbingScanMatcher>(spe, 3, .1, .05); }
    else { sm = std::make_shared<BruteForceScanMatcher>(spe, -.1, .1, .1, -.1, .1, .1, -.05, .05, .05); }
    return sm;
  };
  auto mk = [&](int inner, int w) { return std::make_shared<ConnectTheDotsAmbiguousDriftDetector>(matcher(inner, w)); };
  int inner = rng.below(2), w = rng.below(3);
  auto scene = Scene::room(rng, 4);
  auto map = make_map(rng.range(2, 3), std::make_shared<MeanProbabilityCell>(), {100, 100, .1});
  scene.draw(rng, *map);
  if (rng.chance(0.4)) { scene.walls.resize(2); } // a corridor-like scan: one direction prevails
  auto one = mk(inner, w);
  RobotPose pose{rng.uni(-.5, .5), rng.uni(-.5, .5), rng.uni(-3, 3)};
  struct Out { double p; RobotPoseDelta d; std::string text; };
  std::vector<TransformedLaserScan> scans; std::vector<Out> outs;
  auto run = [&](GridScanMatcher &sm, const TransformedLaserScan &s) {
    Out o; Mute m;
    o.p = sm.process_scan(s, pose, *map, o.d);
    o.text = m.sink.str();
    count("detector_runs"); if (o.text.find("ANALYSIS") != o.text.npos) { count("detector_second_passes"); }
    return o;
  };
  auto same = [](const Out &a, const Out &b) {
    return near(a.p, b.p, 0) && near(a.d.x, b.d.x, 0) && near(a.d.y, b.d.y, 0) && near(a.d.theta, b.d.theta, 0) && a.text == b.text; };
  auto dg = map_digest(*map);
  // the position along the prevailing direction is settled with the other points
  auto along = [&](const TransformedLaserScan &s, const Out &o) {
    std::shared_ptr<ScanProbabilityEstimator> spe = std::make_shared<WeightedMeanPointProbabilitySPE>(
      std::make_shared<ObstacleBasedOccupancyObservationPE>(std::make_shared<OccupancyOIE>()), make_spw(0));
    RobotPoseDelta d; Mute m;
    double p0 = matcher(inner, 0)->process_scan(s, pose, *map, d);
    auto full = spe->filter_scan(s.scan, pose, *map);
    const auto &pts = full.points();
    std::vector<unsigned> bins(20, 0); std::vector<int> bin(pts.size(), -1);
    for (size_t i = 1; i < pts.size(); ++i) {
      double a = std::atan2(pts[i].y() - pts[i - 1].y(), pts[i].x() - pts[i - 1].x()) * 20 / M_PI;
      if (std::abs(a - std::round(a)) < 1e-6) { return; } // may belong to either bin
      bin[i] = ((int)std::floor(a) + 20) % 20; ++bins[bin[i]];
    }
    unsigned most = *std::max_element(bins.begin(), bins.end());
    if (std::count(bins.begin(), bins.end(), most) != 1) { return; }
    if (std::abs(most - 0.4 * pts.size()) < 1e-6) { return; }
    RobotPose best = pose + d, got = pose + o.d;
    if (most < 0.4 * pts.size()) {
      count("detector_no_drift");
      VF_CHECK(near(o.p, p0, 0) && same_pose(best, got, 1e-12), "no-drift", "no direction prevails, result " << ps(got) << " the matcher alone " << ps(best));
      return;
    }
    int k = std::max_element(bins.begin(), bins.end()) - bins.begin();
    LaserScan2D rest; rest.trig_provider = full.trig_provider;
    for (size_t i = 1; i < pts.size(); ++i) { if (bin[i] != k) { rest.points().push_back(pts[i]); } }
    double ang = (k + .5) * M_PI / 20, top = spe->estimate_scan_probability(rest, best, *map), mine = spe->estimate_scan_probability(rest, got, *map);
    bool known = same_pose(got, best, 1e-9);
    for (double l = -.25; l <= .25; l += .1) {
      RobotPose q{best.x + l * std::cos(ang), best.y + l * std::sin(ang), best.theta};
      double v = spe->estimate_scan_probability(rest, q, *map);
      if (top < v) { top = v; }
      known = known || same_pose(got, q, 1e-9);
    }
    VF_CHECK(known, "drift-pose", "result " << ps(got) << " is off the line through " << ps(best) << " at " << ang);
    if (rest.points().empty()) { VF_CHECK(same_pose(got, best, 1e-9), "drift-nothing-left", ps(got)); return; }
    VF_CHECK(top <= mine + 1e-9 || std::isnan(top), "drift-best", "the rest of the scan has " << mine << " at " << ps(got) << ", " << top << " elsewhere on the line");
    double want = spe->estimate_scan_probability(full, got, *map);
    VF_CHECK(std::abs(o.p - want) < 1e-9 || (std::isnan(want) && std::isnan(o.p)), "drift-score", o.p << " want " << want);
    count("detector_drifts_checked"); if (!same_pose(got, best, 1e-9)) { count("detector_drifts_moved"); }
  };
  for (int i = 0; i < 3; ++i) {
    TransformedLaserScan s; s.quality = 1;
    if (rng.chance(0.15)) { s.scan = rnd_scan(rng); for (auto &p : s.scan.points()) { if (!(p.range() < 30)) { p = ScanPoint2D{1, 0, true}; } } }
    else { s.scan = scene.scan({pose.x + rng.uni(-.1, .1), pose.y + rng.uni(-.1, .1), pose.theta}, rng.range(2, 60), 8); }
    auto before = snap(s.scan);
    auto o = run(*one, s);
    VF_CHECK(eq(before, snap(s.scan)), "detector-alters-scan", "scan " << i);
    VF_CHECK(dg == map_digest(*map), "detector-alters-map", "scan " << i);
    scans.push_back(s); outs.push_back(o);
    if (w == 0) { along(s, o); }
    distinct(Hash().add(o.p).add(o.d.x).add(o.d.theta)); eval();
  }
  auto other = mk(inner, w);
  for (int i = 2; 0 <= i; --i) {
    auto a = run(*one, scans[i]), b = run(*other, scans[i]);
    VF_CHECK(same(a, outs[i]), "verdict-repeat", "scan " << i << ": " << a.p << " " << a.d << " [" << a.text << "] first " << outs[i].p << " " << outs[i].d << " [" << outs[i].text << "]");
    VF_CHECK(same(b, outs[i]), "verdict-object", "scan " << i << ": " << b.p << " " << b.d << " [" << b.text << "] first " << outs[i].p << " " << outs[i].d << " [" << outs[i].text << "]");
  }
}
VF_MAIN
