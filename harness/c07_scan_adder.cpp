// C07: integrating a scan changes exactly the cells it observed.
#include "maps_common.h"
#include "core/maps/grid_map_scan_adders.h"
#include "core/maps/const_occupancy_estimator.h"
#include "core/maps/area_occupancy_estimator.h"
using namespace vf;
REQUIRE_EVENTS("scans", 3000)
REQUIRE_EVENTS("updates_matched", 100000)
REQUIRE_EVENTS("blurred_updates", 3000)
REQUIRE_EVENTS("updates_outside_skipped", 500)
REQUIRE_EVENTS("exact_reaches", 300)
REQUIRE_EVENTS("heading_disturbed", 1000)
REQUIRE_EVENTS("dense_scans", 20)

namespace {
struct Rec { C c; AreaOccupancyObservation o; bool used; };
struct Log { std::vector<Rec> upd; int resets = 0; };

template <class M> struct RecMap : M {
  Log *log;
  template <class... A> RecMap(Log *l, A &&... a) : M(std::forward<A>(a)...), log{l} {}
  void update(const C &c, const AreaOccupancyObservation &o) override {
    log->upd.push_back({c, o, false}); M::update(c, o);
  }
  void reset(const C &c, const GridCell &n) override { ++log->resets; M::reset(c, n); }
};
std::unique_ptr<GridMap> rec_map(int kind, Log *l, GridMapParams p) {
  auto proto = std::make_shared<HistCell>();
  switch (kind) {
  case 0: return std::make_unique<RecMap<PlainGridMap>>(l, proto, p);
  case 1: return std::make_unique<RecMap<LazyTiledGridMap>>(l, proto, p);
  case 2: return std::make_unique<RecMap<UnboundedPlainGridMap>>(l, proto, p);
  default: return std::make_unique<RecMap<UnboundedLazyTiledGridMap>>(l, proto, p);
  }
}

// an estimator that depends smoothly on everything it is given
struct SmoothEst : CellOccupancyEstimator {
  SmoothEst() : CellOccupancyEstimator{{0.9, 1}, {0.1, 1}} {}
  Occupancy estimate_occupancy(const Segment2D &b, const Rectangle &r, bool occ) override {
    double v = b.beg().x + 1.7 * b.beg().y + 2.3 * b.end().x - 1.1 * b.end().y +
               3.1 * r.left() + 0.7 * r.right() - 1.9 * r.bot() + 2.9 * r.top();
    return {0.5 + (occ ? 0.4 : -0.4) * (0.6 + 0.4 * std::sin(v)), 0.5 + 0.4 * std::cos(1.3 * v + occ)};
  }
};
struct RecOMQE : ObservationMappingQualityEstimator {
  mutable int resets = 0; size_t n = 0;
  void reset(const LaserScan2D &s) override { ++resets; n = s.points().size(); }
  double quality(const LaserScan2D::Points &, PointId id) const override { return 1.0 / (1.5 + 0.37 * id); }
};

std::shared_ptr<CellOccupancyEstimator> make_est(int k) {
  Occupancy o{0.95, 0.8}, e{0.02, 0.6};
  switch (k) {
  case 0: return std::make_shared<SmoothEst>();
  case 1: return std::make_shared<ConstOccupancyEstimator>(o, e);
  default: return std::make_shared<AreaOccupancyEstimator>(o, e);
  }
}
bool same(double a, double b) { return near(a, b, 1e-7); }

void one_case(Rng &rng, bool bounded) {
  double m = rng.pickd({0.05, 0.1, 0.25, 1.0, 0.3});
  int kind = bounded ? rng.below(2) : 2 + rng.below(2);
  Log log;
  auto map = rec_map(kind, &log, {(int)rng.range(1, bounded ? 60 : 20), (int)rng.range(1, bounded ? 60 : 20), m});
  int estk = rng.below(3), omk = rng.below(3);
  auto est = make_est(estk), est2 = make_est(estk);
  auto rec_omqe = std::make_shared<RecOMQE>();
  std::shared_ptr<ObservationMappingQualityEstimator> omqe = rec_omqe;
  if (omk == 1) { omqe = std::make_shared<IdleOMQE>(); }
  if (omk == 2) { omqe = std::make_shared<AngleHistogramResiprocalOMQE>(); }
  double blur = rng.pickd({0, 0, m * rng.uni(0.3, 12), m * rng.range(1, 8), -m * rng.uni(0.001, 2)});
  bool has_max = rng.chance(0.4);
  double max_r = has_max ? m * rng.uni(1, 30) : std::numeric_limits<double>::infinity();
  auto b = WallDistanceBlurringScanAdder::builder();
  b.set_occupancy_estimator(est).set_observation_quality_estimator(omqe).set_blur_distance(blur);
  if (has_max) { b.set_max_usable_range(max_r); }
  auto adder = b.build();

  for (int rep = 0, reps = rng.range(1, 3); rep < reps; ++rep) {
    LaserScan2D scan;
    bool dense = rng.chance(0.01), far = rng.chance(0.03);
    int n = dense ? rng.range(257, 400) : rng.chance(0.1) ? 0 : rng.chance(0.2) ? rng.range(1, 3) : rng.range(1, 25);
    if (dense) { count("dense_scans"); }
    bool cached = rng.chance(0.3);
    double a0 = rng.uni(-3, 0), inc = rng.uni(0.01, 0.15) / (dense ? 20 : 1);
    if (cached) {
      auto tp = std::make_shared<CachedTrigonometryProvider>();
      tp->update(a0, a0 + inc * (n + 0.5), inc);
      scan.trig_provider = tp;
    }
    for (int i = 0; i < n; ++i) {
      double r = m * std::pow(10.0, rng.uni(-1, dense ? 1 : far ? 2.7 : 1.6));
      if (rng.chance(0.05)) { r = 0; }
      if (has_max && rng.chance(0.1)) { r = max_r * rng.pickd({0.999, 1.001}); }
      scan.points().emplace_back(r, cached ? a0 + inc * i : rng.uni(-3, 3), rng.chance(0.7));
    }
    RobotPose pose{rng.uni(-30, 30) * m, rng.uni(-30, 30) * m, rng.uni(-7, 7)};
    if (rng.chance(0.5)) { pose.x /= 10; pose.y /= 10; }
    if (rng.chance(0.03)) { pose.theta *= 20; }
    if (rng.chance(0.06)) { pose.theta = 0; }
    // the provider is shared with others: they leave any heading behind
    if (rng.chance(0.5)) { scan.trig_provider->set_base_angle(rng.uni(-7, 7)); count("heading_disturbed"); }
    if (bounded && rng.chance(0.03)) { pose.x *= 100; pose.y *= 100; }
    double q = rng.unit();
    int margin = rng.chance(0.5) ? 0 : rng.chance(0.2) ? rng.range(0, 40) : rng.range(0, 4);
    auto pts = scan.points();
    log = Log{};
    Geo before{*map};
    auto &ret = adder->append_scan(*map, pose, scan, q, margin);
    VF_CHECK(&ret == map.get(), "returned-map", "append_scan returned another map");
    count("scans");
    std::ostringstream w; w << std::setprecision(17) << kMapKinds[kind] << " scale " << m << " est " << estk
      << " omqe " << omk << " blur " << blur << " max " << max_r << " n " << n << " margin " << margin
      << " pose " << pose.x << "," << pose.y << "," << pose.theta;
    auto what = w.str();
    VF_CHECK(log.resets == 0, "cell-reset", what << ": scan integration reset cells");
    VF_CHECK(scan.points().size() == pts.size(), "scan-modified", what);
    for (size_t i = 0; i < pts.size(); ++i) {
      auto &x = scan.points()[i];
      VF_CHECK(x.range() == pts[i].range() && x.angle() == pts[i].angle() && x.is_occupied() == pts[i].is_occupied(),
               "scan-modified", what << " point " << i);
    }
    if (n == 0) {
      VF_CHECK(log.upd.empty(), "empty-scan-updates", what);
      VF_CHECK(before == Geo{*map}, "empty-scan-grows", what);
    }
    std::unique_ptr<AngleHistogramResiprocalOMQE> ah;
    if (omk == 2) { ah = std::make_unique<AngleHistogramResiprocalOMQE>(); ah->reset(scan); }
    bool any_usable = false;
    for (int i = margin; i + margin < n; ++i) {
      auto &sp = pts[i];
      double th = pose.theta + sp.angle();
      Point2D end{pose.x + sp.range() * std::cos(th), pose.y + sp.range() * std::sin(th)};
      any_usable = true;
      if (has_max) {
        VF_CHECK(1e-9 < std::abs(sp.range() - max_r), "harness", "range too close to the limit");
        if (max_r < sp.range()) { count("too_long_points"); continue; }
      }
      // adopt the exact end point the code used, when it differs by rounding only
      bool found = false;
      for (auto &r : log.upd) {
        if (!r.used && std::abs(r.o.obstacle.x - end.x) < 1e-8 && std::abs(r.o.obstacle.y - end.y) < 1e-8) {
          end = r.o.obstacle; found = true; break;
        }
      }
      Segment2D beam{pose.point(), end};
      auto cells = map->world_to_cells(beam);
      C oc = cells.back(), rc = map->world_to_cell(pose.point());
      VF_CHECK(oc == map->world_to_cell(end), "end-cell", what);
      double quality = q * (omk == 0 ? 1.0 / (1.5 + 0.37 * i) : omk == 1 ? 1.0 : ah->quality(pts, i));
      double hole = 0;
      bool occ = sp.is_occupied();
      if (occ) {
        hole = blur / m;
        if (hole < 0) { hole *= -beam.length_sq(); }
      }
      double hole2 = hole * hole, od2 = std::pow(rc.x - oc.x, 2) + std::pow(rc.y - oc.y, 2);
      auto base = est2->estimate_occupancy(beam, map->world_cell_bounds(oc), occ);
      int outside = 0;
      for (size_t ci = 0; ci < cells.size(); ++ci) {
        auto c = cells[ci];
        if (!map->has_cell(c)) { ++outside; continue; }
        bool last = ci + 1 == cells.size();
        auto e = last ? base : est2->estimate_occupancy(beam, map->world_cell_bounds(c), false);
        bool flag = last ? occ : false;
        double d2 = std::pow(c.x - oc.x, 2) + std::pow(c.y - oc.y, 2);
        bool may_blur = !last && d2 < hole2 * (1 + 1e-9) && hole2 < od2 * (1 + 1e-9);
        bool may_free = last || !(d2 < hole2 * (1 - 1e-9) && hole2 < od2 * (1 - 1e-9));
        bool ok = false, cell_seen = false; std::string got;
        for (auto &r : log.upd) {
          if (r.used || !(r.c == c) || !(r.o.obstacle.x == end.x && r.o.obstacle.y == end.y)) { continue; }
          cell_seen = true;
          auto fits = [&](bool f, double p) {
            return r.o.is_occupied == f && same(r.o.occupancy.prob_occ, p) &&
                   same(r.o.occupancy.estimation_quality, e.estimation_quality) && same(r.o.quality, quality);
          };
          if (may_free && fits(flag, e.prob_occ)) { ok = true; }
          if (may_blur && fits(true, base.prob_occ * (1 - d2 / hole2))) { ok = true; count("blurred_updates"); }
          if (ok) { r.used = true; count("updates_matched"); break; }
          std::ostringstream g; g << std::setprecision(12) << " (got occ=" << r.o.is_occupied << " p="
            << r.o.occupancy.prob_occ << " eq=" << r.o.occupancy.estimation_quality << " q=" << r.o.quality << ")";
          got = g.str();
        }
        VF_CHECK(ok, cell_seen ? (last ? "wrong-end-observation" : "wrong-pass-observation") : "missing-update",
                 what << " point " << i << " r=" << sp.range() << " occ=" << occ << " cell " << cs(c) << " #" << ci << " of "
                 << cells.size() << ": want occ=" << flag << " p=" << e.prob_occ << " eq=" << e.estimation_quality
                 << " q=" << quality << " blur cells " << hole << got << (found ? "" : " (no update with this obstacle)"));
      }
      if (outside) { count("updates_outside_skipped", outside); }
      distinct(Hash().add(end.x).add(end.y).add(kind));
    }
    for (auto &r : log.upd) {
      VF_CHECK(r.used, "extra-update", what << ": unexpected update of " << cs(r.c) << " occ=" << r.o.is_occupied
               << " obstacle " << r.o.obstacle.x << "," << r.o.obstacle.y);
    }
    if (omk == 0 && any_usable) {
      VF_CHECK(0 < rec_omqe->resets && rec_omqe->n == (size_t)n, "omqe-not-reset", what);
    }
    if (n && !any_usable) { count("all_in_margin"); }
    eval();
  }
  if (rng.chance(0.001)) { sample(std::string(kMapKinds[kind]) + " scans integrated"); }
}
} // namespace

FAMILY(unbounded, 3000, 60000) { one_case(rng, false); }
FAMILY(bounded, 3000, 60000) { one_case(rng, true); }

// axis-aligned beams from cell centres: exact blur distances
FAMILY(aligned, 2000, 30000) {
  double m = rng.pickd({0.5, 1.0, 0.25});
  Log log;
  auto map = rec_map(2 + rng.below(2), &log, {8, 8, m});
  int blur_cells = rng.range(1, 6);
  // the blurring distance reaches strictly between two cells, or a cell exactly
  double reach = blur_cells + rng.pickd({0, 0.5, 0.5}), blur = reach * m;
  if (reach == blur_cells) { count("exact_reaches"); }
  auto adder = WallDistanceBlurringScanAdder::builder()
    .set_occupancy_estimator(std::make_shared<ConstOccupancyEstimator>(Occupancy{0.9, 1}, Occupancy{0.1, 1}))
    .set_observation_quality_estimator(std::make_shared<IdleOMQE>()).set_blur_distance(blur).build();
  int len = rng.range(0, 15), dir = rng.below(4);
  C rc((int)rng.range(-20, 20), (int)rng.range(-20, 20));
  LaserScan2D scan;
  scan.points().emplace_back(len * m, dir * M_PI / 2, true);
  adder->append_scan(*map, RobotPose{(rc.x + 0.5) * m, (rc.y + 0.5) * m, 0}, scan, 1.0, 0);
  VF_CHECK((int)log.upd.size() == len + 1, "aligned-count", "beam of " << len << " cells gave " << log.upd.size());
  const int dx[] = {1, 0, -1, 0}, dy[] = {0, 1, 0, -1};
  for (auto &r : log.upd) {
    int i = std::abs(r.c.x - rc.x) + std::abs(r.c.y - rc.y), d = len - i;
    VF_CHECK(r.c == C(rc.x + dx[dir] * i, rc.y + dy[dir] * i), "aligned-cell", cs(r.c));
    bool blurred = 0 < d && d < reach && reach < len;
    double want = d == 0 ? 0.9 : blurred ? 0.9 * (1 - d * d / (reach * reach)) : 0.1;
    VF_CHECK(near(r.o.occupancy.prob_occ, want) && r.o.is_occupied == (d == 0 || blurred), "aligned-value",
             "beam " << len << " blur " << reach << " distance " << d << ": p=" << r.o.occupancy.prob_occ
             << " want " << want);
    count("updates_matched");
  }
  distinct(Hash().add(len).add(dir).add(reach).add(rc.x).add(rc.y));
  eval();
}
VF_MAIN
