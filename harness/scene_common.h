#ifndef VF_SCENE_COMMON_H
#define VF_SCENE_COMMON_H
#include "maps_common.h"
#include "cells_common.h"
#include "core/scan_matchers/weighted_mean_point_probability_spe.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#include "core/scan_matchers/occupancy_observation_probability.h"
namespace vf {
// A room: axis-aligned or rotated walls with some boxes, ray-cast exactly.
struct Scene {
  std::vector<std::pair<Point2D, Point2D>> walls;
  double size;
  static Scene room(Rng &rng, double size) {
    Scene s; s.size = size;
    double w = size * rng.uni(0.6, 1), h = size * rng.uni(0.6, 1), a = rng.chance(0.5) ? 0 : rng.uni(0, 1.5);
    auto add_box = [&](Point2D c, double w, double h, double a) {
      Point2D p[4]; int sx[] = {-1, 1, 1, -1}, sy[] = {-1, -1, 1, 1};
      for (int i = 0; i < 4; ++i) {
        double x = sx[i] * w, y = sy[i] * h;
        p[i] = Point2D{c.x + x * std::cos(a) - y * std::sin(a), c.y + x * std::sin(a) + y * std::cos(a)};
      }
      for (int i = 0; i < 4; ++i) { s.walls.emplace_back(p[i], p[(i + 1) % 4]); }
    };
    add_box({0, 0}, w, h, a);
    for (int i = 0, n = rng.range(0, 3); i < n; ++i) {
      double r = size * rng.uni(0.35, 0.55), b = rng.uni(-M_PI, M_PI);
      add_box({r * std::cos(b), r * std::sin(b)}, size * rng.uni(0.05, 0.1), size * rng.uni(0.05, 0.1), rng.uni(0, 1.5));
    }
    return s;
  }
  double cast(Point2D o, double th) const {
    double best = std::numeric_limits<double>::infinity(), dx = std::cos(th), dy = std::sin(th);
    for (auto &w : walls) {
      double ex = w.second.x - w.first.x, ey = w.second.y - w.first.y;
      double det = ex * dy - ey * dx;
      if (std::abs(det) < 1e-12) { continue; }
      double qx = w.first.x - o.x, qy = w.first.y - o.y;
      double t = (ex * qy - ey * qx) / det, u = (dx * qy - dy * qx) / det;
      if (0 < t && -1e-9 <= u && u <= 1 + 1e-9) { best = std::min(best, t); }
    }
    return best;
  }
  LaserScan2D scan(const RobotPose &p, int n, double max_r, double fov = 2 * M_PI) const {
    LaserScan2D s;
    for (int i = 0; i < n; ++i) {
      double a = -fov / 2 + fov * i / n, r = cast({p.x, p.y}, p.theta + a);
      bool occ = r <= max_r;
      s.points().emplace_back(occ ? r : max_r, a, occ);
    }
    return s;
  }
  void draw(Rng &rng, GridMap &m, bool free_space = true) const {
    double st = m.scale() / 2;
    if (free_space) {
      int n = (int)(size / m.scale());
      for (int x = -n; x <= n; ++x) for (int y = -n; y <= n; ++y) {
        if (rng.chance(0.7)) { m.update(C(x, y), mk_obs(rng.uni(0, 0.3), 1, 1, false)); }
      }
    }
    for (auto &w : walls) {
      double ex = w.second.x - w.first.x, ey = w.second.y - w.first.y, l = std::hypot(ex, ey);
      for (double t = 0; t <= l; t += st) {
        auto c = m.world_to_cell(w.first.x + ex * t / l, w.first.y + ey * t / l);
        if (m.has_cell(c)) { m.update(c, mk_obs(rng.uni(0.75, 1), 1, 1, true, {w.first.x + ex * t / l, w.first.y + ey * t / l})); }
      }
    }
  }
};

inline std::shared_ptr<ScanPointWeighting> make_spw(int k) {
  switch (k) {
  case 0: return std::make_shared<EvenSPW>();
  case 1: return std::make_shared<VinySlamSPW>();
  default: return std::make_shared<AngleHistogramReciprocalSPW>();
  }
}

struct SPt { double r, a; bool o; };
inline std::vector<SPt> snap(const LaserScan2D &s) {
  std::vector<SPt> v;
  for (auto &p : s.points()) { v.push_back({p.range(), p.angle(), p.is_occupied()}); }
  return v;
}
inline bool eq(const std::vector<SPt> &a, const std::vector<SPt> &b) {
  if (a.size() != b.size()) { return false; }
  for (size_t i = 0; i < a.size(); ++i) {
    if (a[i].r != b[i].r || a[i].a != b[i].a || a[i].o != b[i].o) { return false; }
  }
  return true;
}
inline uint64_t map_digest(const GridMap &m) {
  Hash h; Geo g{m};
  h.add(g.w).add(g.h).add(g.o.x).add(g.o.y).add(g.s);
  for (int x = 0; x < g.w; ++x) for (int y = 0; y < g.h; ++y) {
    auto &c = m[m.internal2external({x, y})];
    h.add(c.occupancy().prob_occ).add(c.occupancy().estimation_quality).add(c.is_unknown());
  }
  return h.h;
}

// the real estimator, with every evaluation logged
struct Eval { RobotPose pose; double v; };
struct LogSPE : WeightedMeanPointProbabilitySPE {
  mutable std::vector<Eval> log;
  using WeightedMeanPointProbabilitySPE::WeightedMeanPointProbabilitySPE;
  double estimate_scan_probability(const LaserScan2D &s, const RobotPose &p, const GridMap &m,
                                   const SPEParams &prm) const override {
    double v = WeightedMeanPointProbabilitySPE::estimate_scan_probability(s, p, m, prm);
    log.push_back({p, v});
    return v;
  }
};
inline bool same_pose(const RobotPose &a, const RobotPose &b, double e = 1e-9) {
  return near(a.x, b.x, e) && near(a.y, b.y, e) && near(a.theta, b.theta, e);
}
inline std::string ps(const RobotPose &p) {
  std::ostringstream o; o << std::setprecision(12) << "(" << p.x << "," << p.y << "," << p.theta << ")";
  return o.str();
}
struct MuteLog {
  std::ostringstream sink;
  std::streambuf *c, *o;
  MuteLog() : c{std::clog.rdbuf(nullptr)}, o{std::cout.rdbuf(sink.rdbuf())} {}
  ~MuteLog() { std::clog.rdbuf(c); std::cout.rdbuf(o); }
};
// Observer that records everything it is told.
struct Ev { char kind; RobotPose pose; double v; };
} // namespace vf
#include "core/scan_matchers/grid_scan_matcher.h"
namespace vf {
struct RecObs : GridScanMatcherObserver {
  std::vector<Ev> ev;
  void on_matching_start(const RobotPose &p, const TransformedLaserScan &, const GridMap &) override { ev.push_back({'s', p, 0}); }
  void on_scan_test(const RobotPose &p, const LaserScan2D &, double v) override { ev.push_back({'t', p, v}); }
  void on_pose_update(const RobotPose &p, const LaserScan2D &, double v) override { ev.push_back({'u', p, v}); }
  void on_matching_end(const RobotPose &p, const LaserScan2D &, double v) override { ev.push_back({'e', p, v}); }
};
} // namespace vf
#endif
