// C24 (1): whole SLAM runs, in every configuration, on ordinary and hostile scans.
#include "slam_common.h"
using namespace vf;
REQUIRE_EVENTS("runs", 300)
REQUIRE_EVENTS("scans", 3000)
REQUIRE_EVENTS("hostile_scans", 500)
REQUIRE_EVENTS("far_jumps", 100)
REQUIRE_EVENTS("cells_checked", 1000000)
REQUIRE_EVENTS("kind_viny_like", 80)
REQUIRE_EVENTS("kind_gmapping", 40)
REQUIRE_EVENTS("kind_credibilist", 40)

namespace {
void check_finite(const LaserScanGridWorld &w, const GridMap &m, const std::string &what) {
  auto p = w.pose();
  VF_CHECK(std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.theta), "pose-finite", what << ": pose " << ps(p));
  Geo g{m};
  VF_CHECK(0 < g.w && 0 < g.h && 0 < g.s && std::isfinite(g.s), "map-geometry", what << ": map " << g.w << "x" << g.h << " scale " << g.s);
  for (int x = 0; x < g.w; ++x) for (int y = 0; y < g.h; ++y) {
    auto o = m[m.internal2external({x, y})].occupancy();
    VF_CHECK(std::isfinite(o.prob_occ) && (o.prob_occ == -1 || (-1e-9 <= o.prob_occ && o.prob_occ <= 1 + 1e-9)) && std::isfinite(o.estimation_quality),
             "cell-finite", what << ": cell (" << x << "," << y << ") is " << o.prob_occ << " with quality " << o.estimation_quality);
  }
  count("cells_checked", (uint64_t)g.w * g.h);
}
} // namespace

FAMILY(runs, 480, 16000) {
  MuteLog mute;
  auto c = make_cfg(rng);
  auto w = make_slam(c);
  count(c.kind == 2 ? "kind_gmapping" : c.kind == 3 ? "kind_credibilist" : "kind_viny_like");
  auto sc = Scene::room(rng, c.size / 2);
  RobotPose truth{rng.uni(-.1, .1) * c.size, rng.uni(-.1, .1) * c.size, rng.uni(-3, 3)}, odo = truth;
  int steps = rng.range(3, 14), far = 0; double p_hostile = rng.chance(0.3) ? 0 : 0.35;
  auto tp = rng.chance(0.5);
  for (int t = 0; t < steps; ++t) {
    TransformedLaserScan ts; std::string sname = "room";
    auto prev = odo;
    if (0 < t || rng.chance(0.3)) {
      odo = RobotPose{odo.x + rng.uni(-.1, .1), odo.y + rng.uni(-.1, .1), odo.theta + rng.uni(-.2, .2)};
      if (rng.chance(0.2)) { odo.theta += rng.uni(-2, 2); }
      if (far < 2 && rng.chance(0.06)) { ++far; double d = c.scale * rng.uni(20, 200), a = rng.uni(-M_PI, M_PI); odo = RobotPose{odo.x + d * std::cos(a), odo.y + d * std::sin(a), odo.theta + rng.uni(-100, 100)}; count("far_jumps"); }
    }
    ts.pose_delta = odo - prev;
    int n = rng.range(5, 40);
    if (rng.chance(p_hostile)) { ts.scan = hostile(rng, c, sname); count("hostile_scans"); }
    else { ts.scan = sc.scan(RobotPose{std::remainder(odo.x, c.size / 5), std::remainder(odo.y, c.size / 5), odo.theta}, n, c.size * 2); }
    if (tp && sname == "room") {
      auto prov = std::make_shared<CachedTrigonometryProvider>();
      prov->update(-M_PI, M_PI - 2 * M_PI / n, 2 * M_PI / n);
      ts.scan.trig_provider = prov; // bearings accumulated like the sensor observer does
      std::vector<ScanPoint2D> pts; double a = -M_PI;
      for (auto &p : ts.scan.points()) { pts.emplace_back(p.range(), a, p.is_occupied()); a += 2 * M_PI / n; }
      ts.scan.points() = pts;
    }
    ts.quality = 1;
    auto what = "scan " + std::to_string(t) + " (" + sname + ", moved " + num(ts.pose_delta.x) + "," + num(ts.pose_delta.y) + "," + num(ts.pose_delta.theta) + ") kind " + std::to_string(c.kind) + c.what;
    w->handle_sensor_data(ts);
    count("scans"); eval();
    auto p = w->pose();
    VF_CHECK(std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.theta), "pose-finite", what << ": pose " << ps(p));
    distinct(Hash{}.add(p.x).add(p.y).add(p.theta).h);
    if (t + 1 == steps || rng.chance(0.15)) { check_finite(*w, w->map(), what); }
  }
  count("runs");
}
VF_MAIN
