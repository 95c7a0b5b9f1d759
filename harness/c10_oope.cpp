// C10: point observation probability follows its combination policy exactly.
#include "maps_common.h"
#include "cells_common.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#include "core/scan_matchers/occupancy_observation_probability.h"
#include "slams/gmapping/gmapping_occupancy_observation_pe.h"
#include "slams/gmapping/gmapping_grid_cell.h"
using namespace vf;
REQUIRE_EVENTS("queries", 20000)
REQUIRE_EVENTS("aligned_areas", 2000)
REQUIRE_EVENTS("point_areas", 2000)
REQUIRE_EVENTS("strip_areas", 1000)
REQUIRE_EVENTS("tiny_areas", 1000)
REQUIRE_EVENTS("areas_leaving_map", 2000)
REQUIRE_EVENTS("areas_outside_map", 200)
REQUIRE_EVENTS("gmapping_queries", 3000)

namespace {
double impact(const GridCell &c, bool disc, const AreaOccupancyObservation &o) {
  return disc ? 1.0 - c.discrepancy(o) : c.occupancy().prob_occ;
}
const char *kPol[] = {"obstacle", "max", "mean", "overlap"};
} // namespace

FAMILY(policies, 5000, 100000) {
  double m = rng.pickd({0.05, 0.1, 0.25, 1.0, 2.0});
  bool disc = rng.chance(0.5);
  std::shared_ptr<ObservationImpactEstimator> oie;
  if (disc) { oie = std::make_shared<DiscrepancyOIE>(); } else { oie = std::make_shared<OccupancyOIE>(); }
  ObstacleBasedOccupancyObservationPE obst{oie};
  MaxOccupancyObservationPE mx{oie};
  MeanOccupancyObservationPE mean{oie};
  OverlapWeightedOccupancyObservationPE over{oie};
  const OccupancyObservationProbabilityEstimator *pol[] = {&obst, &mx, &mean, &over};
  std::vector<std::unique_ptr<GridMap>> maps;
  int half = rng.chance(0.05) ? 24 : 8;
  if (half == 24) { count("large_maps"); }
  bool bounded[2];
  for (int i = 0; i < 2; ++i) {
    int k = rng.below(4); bounded[i] = !is_unbounded(k);
    maps.push_back(make_map(k, make_cell(rng.below(4)), {2 * half, 2 * half, m}));
  }
  for (int q = 0; q < 12; ++q) {
    int mi = rng.below(2);
    auto &map = *maps[mi];
    for (int i = 0, n = rng.range(0, 25); i < n; ++i) {
      map.update(C(rng.range(-half, half - 1), rng.range(-half, half - 1)),
                 mk_obs(rng.chance(0.3) ? rng.below(2) : rng.unit(), 1, rng.uni(0.2, 1), rng.chance(0.5)));
    }
    // an area, mostly within the map
    int type = rng.below(8);
    bool aligned = false;
    double l, r, b, t;
    auto u = [&](double a, double z) { return rng.uni(a, z) * m; };
    if (type == 0) { l = r = u(-7, 7); b = t = u(-7, 7); count("point_areas"); }
    else if (type == 1) { // within one cell
      int cx = rng.range(-7, 6), cy = rng.range(-7, 6);
      l = (cx + rng.uni(0.01, 0.4)) * m; r = (cx + rng.uni(0.5, 0.99)) * m;
      b = (cy + rng.uni(0.01, 0.4)) * m; t = (cy + rng.uni(0.5, 0.99)) * m;
    } else if (type == 2) { // strips: longer than cells one way, thinner the other
      bool h = rng.chance(0.5);
      double a0 = u(-7, 2), a1 = a0 + u(1.5, 5), c0 = u(-7, 6), c1 = c0 + u(0.05, 0.9);
      if (h) { l = a0; r = a1; b = c0; t = c1; } else { b = a0; t = a1; l = c0; r = c1; }
      count("strip_areas");
    } else if (type == 3) { // cell-aligned
      int x0 = rng.range(-7, 3), y0 = rng.range(-7, 3);
      l = x0 * m; b = y0 * m; r = (x0 + rng.range(1, 4)) * m; t = (y0 + rng.range(1, 4)) * m;
      aligned = true; count("aligned_areas");
    } else if (type == 7) { // tiny, across a border or a corner of cells
      double e = m * rng.pickd({1e-5, 1e-4, 1e-3, 1e-2}); int x0 = rng.range(-6, 6), y0 = rng.range(-6, 6);
      l = x0 * m - e * rng.uni(.2, .8); r = l + e; b = (rng.chance(0.5) ? y0 : y0 + .4) * m - e * rng.uni(.2, .8); t = b + e;
      count("tiny_areas");
    } else if (type == 6) { // leaves the map, partly or entirely
      l = u(-12, 12); r = l + u(0.1, 4); b = rng.pickd({-1, 1}) * u(5, 11); t = b + u(0.1, 4);
      count("areas_leaving_map");
    } else { double z = half - 1; l = u(-z, 0); r = u(0, z); b = u(-z, 0); t = u(0, z); if (type == 5) { r = l + u(0.1, 3); t = b + u(0.1, 3); } }
    LightWeightRectangle area{b, t, l, r};
    Point2D ob = rng.chance(0.5) ? area.center() : Point2D{u(-7.9, 7.9), u(-7.9, 7.9)};
    auto aoo = mk_obs(1, 1, 1, true, ob);
    // reference over all readable cells
    double sum = 0, n = 0, wsum = 0, wtot = 0, best = 0, best_touch = 0, lo = 9, hi = -9;
    for (int x = -2 * half; x < 2 * half; ++x) for (int y = -2 * half; y < 2 * half; ++y) {
      if (bounded[mi] && (x < -half || half <= x || y < -half || half <= y)) { continue; }
      double w = std::min(r, (x + 1) * m) - std::max(l, x * m), h = std::min(t, (y + 1) * m) - std::max(b, y * m);
      double e = 1e-9;
      double im = impact(map[C(x, y)], disc, aoo);
      if (-e <= w && -e <= h) { best_touch = std::max(best_touch, im); lo = std::min(lo, im); hi = std::max(hi, im); }
      bool in = area.is_point() ? map.world_to_cell(l, b) == C(x, y) : (e < w && e < h);
      if (!in) { continue; }
      best = std::max(best, im); sum += im; n += 1;
      double ov = area.is_point() ? 1 : w * h; wsum += ov * im; wtot += ov;
    }
    std::ostringstream ws; ws << std::setprecision(17) << "scale " << m << " area l=" << l << " r=" << r << " b=" << b << " t=" << t
      << " obstacle " << ob.x << "," << ob.y << (disc ? " discrepancy" : " occupancy");
    auto what = ws.str();
    VF_CHECK(0 < n || type == 6, "harness", what);
    if (n == 0) { count("areas_outside_map"); }
    int order[] = {0, 1, 2, 3}; std::swap(order[0], order[rng.below(4)]);
    for (int k : order) {
      if (k == 0 && bounded[mi] && !map.has_cell(map.world_to_cell(ob))) { continue; }
      double v = pol[k]->probability(aoo, area, map), v2 = pol[k]->probability(aoo, area, map);
      VF_CHECK(v == v2, std::string("unstable:") + kPol[k], what << ": " << v << ", again " << v2);
      if (k && n == 0 && !(lo <= hi)) { // nothing to look at
        double none = k == 1 ? 0 : 0.5;
        VF_CHECK(v == none, std::string("nothing:") + kPol[k], what << ": " << v);
        continue;
      }
      if (k && n == 0) { continue; } // only touches cells of the map
      double want = k == 0 ? impact(map[map.world_to_cell(ob)], disc, aoo) : k == 1 ? best : k == 2 ? sum / n : wsum / wtot;
      if (k == 1 && aligned) {
        VF_CHECK(best - 1e-9 <= v && v <= best_touch + 1e-9, "max-aligned", what << ": " << v << " want " << best << ".." << best_touch);
      } else if (k == 2 && aligned) {
        VF_CHECK(lo - 1e-9 <= v && v <= hi + 1e-9, "mean-aligned", what << ": " << v);
      } else {
        VF_CHECK(near(v, want, 1e-6), std::string("wrong:") + kPol[k], what << ": " << v << " want " << want);
      }
      if (k) { VF_CHECK(lo - 1e-9 <= v && v <= hi + 1e-9, std::string("outside-range:") + kPol[k], what << ": " << v); }
      count("queries"); eval();
      distinct(Hash().add(v).add(l).add(k));
    }
  }
}

FAMILY(gmapping, 3000, 60000) {
  double m = rng.pickd({0.05, 0.1, 0.25});
  unsigned win = rng.range(0, 3);
  double th = rng.pickd({0, 0.1, 0.5});
  GmappingOccupancyObservationPE pe{th, win};
  std::vector<std::unique_ptr<GridMap>> maps;
  for (int i = 0; i < 2; ++i) { maps.push_back(make_map(2 + rng.below(2), std::make_shared<GmappingBaseCell>(), {12, 12, m})); }
  C around((int)rng.range(-4, 4), (int)rng.range(-4, 4));
  for (int q = 0; q < 10; ++q) {
    auto &map = *maps[rng.below(2)];
    for (int i = 0, n = rng.range(0, 6); i < n; ++i) {
      C c(around.x + rng.range(-3, 3), around.y + rng.range(-3, 3));
      map.update(c, mk_obs(rng.chance(0.6) ? rng.uni(0.6, 1) : rng.uni(0, 0.4), 1, 1, true,
                           {(c.x + rng.unit()) * m, (c.y + rng.unit()) * m}));
    }
    C pc = rng.chance(0.7) ? around : C(around.x + rng.range(-2, 2), around.y + rng.range(-2, 2));
    Point2D ob{(pc.x + rng.uni(0.01, 0.99)) * m, (pc.y + rng.uni(0.01, 0.99)) * m};
    auto aoo = mk_obs(1, 1, 1, true, ob);
    double want = 0;
    for (int dx = -(int)win; dx <= (int)win; ++dx) for (int dy = -(int)win; dy <= (int)win; ++dy) {
      auto &c = map[C(pc.x + dx, pc.y + dy)];
      if (c.occupancy().prob_occ < th) { continue; }
      want = std::max(want, 1 - c.discrepancy(aoo));
    }
    double v = pe.probability(aoo, LightWeightRectangle{ob}, map);
    VF_CHECK(near(v, want, 1e-9), "gmapping", "window " << win << " threshold " << th << " query " << q << ": " << v << " want " << want);
    count("gmapping_queries"); eval();
    distinct(Hash().add(v).add(ob.x));
  }
}
VF_MAIN
