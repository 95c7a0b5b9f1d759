// C09: scan probability is a side-effect free weighted mean.
#include "maps_common.h"
#include "cells_common.h"
#include "core/scan_matchers/weighted_mean_point_probability_spe.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#include "core/scan_matchers/occupancy_observation_probability.h"
using namespace vf;
REQUIRE_EVENTS("filters", 3000)
REQUIRE_EVENTS("estimates", 10000)
REQUIRE_EVENTS("unknown_estimates", 100)
REQUIRE_EVENTS("dropped_range", 500)
REQUIRE_EVENTS("dropped_outside", 500)
REQUIRE_EVENTS("at_the_limit", 300)
REQUIRE_EVENTS("dropped_free", 500)
REQUIRE_EVENTS("dropped_rate", 500)
REQUIRE_EVENTS("dense_scans", 60)
REQUIRE_EVENTS("zero_headings", 1000)

namespace {
// depends smoothly on where the point lands and on the analysed area
struct SmoothOOPE : OccupancyObservationProbabilityEstimator {
  SmoothOOPE() : OccupancyObservationProbabilityEstimator{std::make_shared<DiscrepancyOIE>()} {}
  double probability(const AreaOccupancyObservation &o, const LightWeightRectangle &a, const GridMap &) const override {
    return 0.5 + 0.5 * std::sin(1.3 * o.obstacle.x - 0.7 * o.obstacle.y + 2.1 * a.left() + 0.9 * a.top() + a.hside_len());
  }
};
std::shared_ptr<OccupancyObservationProbabilityEstimator> make_oope(int k) {
  auto d = std::make_shared<DiscrepancyOIE>();
  auto o = std::make_shared<OccupancyOIE>();
  switch (k) {
  case 0: case 1: return std::make_shared<SmoothOOPE>();
  case 2: return std::make_shared<ObstacleBasedOccupancyObservationPE>(d);
  case 3: return std::make_shared<ObstacleBasedOccupancyObservationPE>(o);
  case 4: return std::make_shared<MaxOccupancyObservationPE>(d);
  case 5: return std::make_shared<MeanOccupancyObservationPE>(o);
  default: return std::make_shared<OverlapWeightedOccupancyObservationPE>(d);
  }
}
double viny(const ScanPoint2D &sp) {
  double c = std::abs(std::cos(sp.angle())), s = std::abs(std::sin(sp.angle()));
  double w = c > 0.9 ? 3 : c > 0.8 ? 2 : c + s;
  return w * std::sqrt(sp.range());
}
// weight 1 / (number of points that continue the wall in this direction)
std::vector<double> ahr(const LaserScan2D &s) {
  std::vector<double> w;
  AngleHistogram h; h.reset(s);
  for (size_t i = 0; i < s.points().size(); ++i) { w.push_back(i ? 1.0 / h.value(s.points(), i) : 1.0 / s.points().size()); }
  return w;
}
struct SPt { double r, a, x, y; bool o; };
std::vector<SPt> snap(const LaserScan2D &s) {
  std::vector<SPt> v;
  for (auto &p : s.points()) { v.push_back({p.range(), p.angle(), p.x(), p.y(), p.is_occupied()}); }
  return v;
}
bool eq(const std::vector<SPt> &a, const std::vector<SPt> &b) {
  if (a.size() != b.size()) { return false; }
  for (size_t i = 0; i < a.size(); ++i) {
    if (a[i].r != b[i].r || a[i].a != b[i].a || a[i].x != b[i].x || a[i].y != b[i].y || a[i].o != b[i].o) { return false; }
  }
  return true;
}
uint64_t map_digest(const GridMap &m) {
  Hash h; Geo g{m};
  h.add(g.w).add(g.h).add(g.o.x).add(g.o.y).add(g.s);
  for (int x = 0; x < g.w; ++x) for (int y = 0; y < g.h; ++y) {
    auto &c = m[m.internal2external({x, y})];
    h.add(c.occupancy().prob_occ).add(c.occupancy().estimation_quality).add(c.is_unknown());
  }
  return h.h;
}
} // namespace

FAMILY(scan, 6000, 120000) {
  int kind = rng.below(4);
  double m = rng.pickd({0.1, 0.25, 1.0});
  int half = rng.range(4, 12);
  auto map = make_map(kind, make_cell(rng.below(4)), {2 * half, 2 * half, m});
  for (int i = 0, n = rng.range(0, 120); i < n; ++i) {
    map->update(C(rng.range(-half, half - 1), rng.range(-half, half - 1)), mk_obs(rng.unit(), 1, rng.uni(0.1, 1), rng.chance(0.5)));
  }
  int ok = rng.below(7), wk = rng.below(3);
  auto oope = make_oope(ok), oracle = make_oope(ok);
  std::shared_ptr<ScanPointWeighting> spw;
  if (wk == 0) { spw = std::make_shared<EvenSPW>(); }
  if (wk == 1) { spw = std::make_shared<VinySlamSPW>(); }
  if (wk == 2) { spw = std::make_shared<AngleHistogramReciprocalSPW>(); }
  unsigned rate = rng.chance(0.4) ? 0 : rng.range(1, 6);
  double max_r = rng.chance(0.5) ? -1 : m * rng.uni(1, half);
  WeightedMeanPointProbabilitySPE spe{oope, spw, rate, max_r};
  std::ostringstream w; w << kMapKinds[kind] << " oope " << ok << " spw " << wk << " rate " << rate << " max " << max_r;
  auto what = w.str();

  for (int rep = 0, reps = rng.range(1, 3); rep < reps; ++rep) {
    LaserScan2D raw;
    bool dense = rng.chance(0.02);
    int n = dense ? rng.range(257, 1500) : rng.chance(0.08) ? 0 : rng.chance(0.2) ? rng.range(1, 3) : rng.range(1, 30);
    if (dense) { count("dense_scans"); }
    bool all_zero = rng.chance(0.05);
    double shrink = rng.chance(0.03) ? 1e-7 : 1;
    for (int i = 0; i < n; ++i) {
      double r = all_zero || rng.chance(0.03) ? 0 : shrink * m * rng.uni(0.05, 1.4 * half), a = rng.uni(-M_PI, M_PI);
      bool occ = !rng.chance(0.2);
      // the limit itself is usable (up to 4 the comparison has an absolute tolerance below the limit)
      if (4 < max_r && rng.chance(0.1)) {
        raw.points().push_back(ScanPoint2D::make_polar(max_r, a, occ)); count("at_the_limit"); continue;
      }
      if (rng.chance(0.3)) { raw.points().push_back(ScanPoint2D::make_cartesian({r * std::cos(a), r * std::sin(a)}, occ)); }
      else { raw.points().push_back(ScanPoint2D::make_polar(r, a, occ)); }
    }
    auto raw0 = snap(raw);
    auto dig = map_digest(*map);
    RobotPose pose{rng.uni(-half, half) * m * 0.6, rng.uni(-half, half) * m * 0.6, rng.chance(0.08) ? 0.0 : rng.uni(-7, 7) * (rng.chance(0.03) ? 20 : 1)};
    auto pose0 = pose;
    auto inside = [&](const RobotPose &p, double r, double a) {
      return map->has_cell(map->world_to_cell(p.x + r * std::cos(p.theta + a), p.y + r * std::sin(p.theta + a)));
    };
    std::vector<SPt> want;
    for (int i = 0; i < n; ++i) {
      if (rate && i % rate) { count("dropped_rate"); continue; }
      auto &p = raw0[i];
      if (!p.o) { count("dropped_free"); continue; }
      if (0 < max_r && max_r < p.r) { count("dropped_range"); continue; }
      if (!inside(pose, p.r, p.a)) { count("dropped_outside"); continue; }
      want.push_back(p);
    }
    auto scan = spe.filter_scan(raw, pose, *map);
    count("filters");
    auto got = snap(scan);
    VF_CHECK(eq(got, want), "filter", what << ": " << n << " points, kept " << got.size() << " want " << want.size());
    VF_CHECK(eq(snap(raw), raw0), "raw-scan-modified", what);
    std::vector<double> ws = wk == 2 ? ahr(scan) : std::vector<double>(got.size(), 1.0);
    if (wk == 1) { for (size_t i = 0; i < ws.size(); ++i) { ws[i] = viny(scan.points()[i]); } }

    std::vector<std::pair<RobotPose, double>> seen;
    for (int k = 0, kn = rng.range(1, 6); k < kn; ++k) {
      RobotPose p = k == 0 ? pose : RobotPose{pose.x + rng.gauss() * m, pose.y + rng.gauss() * m,
                                                      rng.chance(0.08) ? 0.0 : pose.theta + rng.gauss() * 0.3};
      if (p.theta == 0) { count("zero_headings"); }
      ScanProbabilityEstimator::SPEParams prm;
      bool with_area = kind >= 2 && rng.chance(0.4);
      if (with_area) {
        double hw = rng.uni(0, 1.5) * m, hh = rng.uni(0, 1.5) * m;
        prm.sp_analysis_area = LightWeightRectangle{-hh, hh, -hw, hw};
      }
      // reference
      double sum = 0, tot = 0, lo = 2, hi = -2; bool edge = false;
      for (size_t i = 0; i < want.size(); ++i) {
        double x = p.x + want[i].r * std::cos(p.theta + want[i].a), y = p.y + want[i].r * std::sin(p.theta + want[i].a);
        for (double v : {x / m, y / m}) { edge |= std::abs(v - std::round(v)) < 1e-9; }
        auto ob = mk_obs(1, 1, 1, true, {x, y});
        if (!map->has_cell(map->world_to_cell(x, y))) { count("point_left_map"); continue; }
        double pr = oracle->probability(ob, prm.sp_analysis_area.move_center({x, y}), *map);
        lo = std::min(lo, pr); hi = std::max(hi, pr);
        sum += pr * ws[i]; tot += ws[i];
      }
      auto *cl = std::clog.rdbuf(nullptr);
      double v = spe.estimate_scan_probability(scan, p, *map, prm);
      if (rng.chance(0.5)) { // the provider is shared with others: they leave any heading behind
        scan.trig_provider->set_base_angle(rng.uni(-7, 7));
        count("heading_disturbed");
      }
      if (rng.chance(0.2)) { // another scan, with a provider of its own, at the same pose
        LaserScan2D other{scan};
        other.trig_provider = std::make_shared<RawTrigonometryProvider>();
        double vo = spe.estimate_scan_probability(other, p, *map, prm);
        VF_CHECK(v == vo || (std::isnan(v) && std::isnan(vo)), "other-provider", what << ": " << v << " vs " << vo);
      }
      double v2 = spe.estimate_scan_probability(scan, p, *map, prm);
      std::clog.rdbuf(cl);
      count("estimates");
      VF_CHECK(v == v2 || (std::isnan(v) && std::isnan(v2)), "not-repeatable", what << ": " << v << " then " << v2);
      VF_CHECK(ScanProbabilityEstimator::is_prob_unknown(v) == std::isnan(v), "unknown-not-recognised", what << ": " << v);
      if (tot == 0) {
        VF_CHECK(ScanProbabilityEstimator::is_prob_unknown(v), "not-unknown", what << ": " << v << " although no point carries weight");
        count("unknown_estimates");
      } else if (!edge) {
        VF_CHECK(near(v, sum / tot, 1e-7), "wrong-mean", what << ": " << v << " want " << sum / tot << " (" << want.size() << " points)");
        VF_CHECK(lo - 1e-9 <= v && v <= hi + 1e-9, "outside-range", what << ": " << v << " not in [" << lo << "," << hi << "]");
      }
      if (!with_area) { seen.emplace_back(p, v); }
      // the same scan, rotated beforehand
      if (rng.chance(0.4) && !edge && 0 < tot) {
        auto rot = scan.to_cartesian(p.theta);
        if (wk != 0) { continue; } // other weightings look at the points' own bearings
        prm.scan_is_prerotated = true;
        double vr = spe.estimate_scan_probability(rot, p, *map, prm);
        VF_CHECK(near(v, vr, 1e-7), "prerotated", what << ": " << v << " vs rotated beforehand " << vr);
        count("prerotated");
      }
      distinct(Hash().add(v).add(p.x));
      eval();
    }
    auto *cl = std::clog.rdbuf(nullptr);
    for (auto &s : seen) {
      double v = spe.estimate_scan_probability(scan, s.first, *map, {});
      if (!near(v, s.second, 1e-12)) { std::clog.rdbuf(cl); }
      VF_CHECK(near(v, s.second, 1e-12), "history-dependent", what << ": " << s.second << " first, " << v << " later");
    }
    std::clog.rdbuf(cl);
    VF_CHECK(eq(snap(scan), got), "scan-modified", what);
    VF_CHECK(dig == map_digest(*map), "map-modified", what);
    VF_CHECK(pose.x == pose0.x && pose.y == pose0.y && pose.theta == pose0.theta, "pose-modified", what);
  }
  if (rng.chance(0.001)) { sample(what); }
}
VF_MAIN
