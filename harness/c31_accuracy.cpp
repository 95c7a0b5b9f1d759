// C31 (limits: at least 1.5 times the largest median seen in 990 series on the unchanged code): end to end, a SLAM follows a robot through a static room and maps it.
#include "slam_common.h"
using namespace vf;
REQUIRE_EVENTS("runs", 60)
REQUIRE_EVENTS("poses", 5000)
REQUIRE_EVENTS("series", 30)
REQUIRE_EVENTS("wall_cells", 5000)
REQUIRE_EVENTS("free_cells", 20000)

namespace {
struct Limit { double err, th, wall; }; // medians of the runs' worst errors; share of walls found
const Limit kGrid{0.1, 0.03, 0.9}, kMC{0.42, 0.15, 0.9}, kCred{0.55, 0.15, 0.9}, kPF{1.0, 0.5, 0.25}, kRough{0.65, 0.32, 0.9};
struct Setup { const char *name; int slam; Limit lim; const char *file; std::vector<std::pair<const char *, const char *>> over; };
const std::vector<Setup> &setups() {
  static const std::vector<Setup> s = {
    {"viny", 1, kMC, "slams/viny_slam_base.properties", {}},
    {"tiny-mean", 1, kMC, "slams/tiny_slam_base.properties", {}},
    {"tiny-original", 1, kRough, "slams/tiny_slam_base.properties", {{"slam/mapping/grid/area/type", "affine_quality_merge"}, {"slam/mapping/corrected_pose_quality", "0.2"}, {"slam/mapping/raw_pose_quality", "0.1"}}},
    {"gmapping", 2, kPF, "slams/gmapping_base.properties", {{"slam/particles/number", "10"}}},
    {"viny-hc", 1, kGrid, "slams/viny_slam_base.properties", {{"slam/scmtch/type", "HC"}}},
    {"viny-bf", 1, kGrid, "slams/viny_slam_base.properties", {{"slam/scmtch/type", "BF"}, {"slam/scmtch/BF/x/from", "-0.1"}, {"slam/scmtch/BF/x/to", "0.1"}, {"slam/scmtch/BF/x/step", "0.05"},
      {"slam/scmtch/BF/y/from", "-0.1"}, {"slam/scmtch/BF/y/to", "0.1"}, {"slam/scmtch/BF/y/step", "0.05"}, {"slam/scmtch/BF/t/from", "-0.03"}, {"slam/scmtch/BF/t/to", "0.03"}, {"slam/scmtch/BF/t/step", "0.015"}}},
    {"viny-m3rsm", 1, kGrid, "slams/viny_slam_base.properties", {{"slam/scmtch/type", "BF_M3RSM"}, {"slam/scmtch/oope/type", "max"}, {"slam/scmtch/BF_M3RSM/limits/x_translation", "0.2"}, {"slam/scmtch/BF_M3RSM/limits/y_translation", "0.2"},
      {"slam/scmtch/BF_M3RSM/limits/rotation", "0.04"}, {"slam/scmtch/BF_M3RSM/accuracy/rotation", "0.01"}}},
    {"viny-even-occ", 1, kMC, "slams/viny_slam_base.properties", {{"slam/mapping/grid/area/type", "tbm_unknown_even_occ"}}},
    {"viny-tiled", 1, kMC, "slams/viny_slam_base.properties", {{"slam/mapping/grid/type", "unbounded_lazy_tiled"}}},
    {"viny-ahr", 1, kRough, "slams/viny_slam_base.properties", {{"slam/scmtch/spe/wmpp/weighting/type", "ahr"}}},
    {"credibilist", 3, kCred, "slams/viny_slam_base.properties", {}},
  };
  return s;
}
}
namespace {
struct Result { double err, th, wall, fr; };
Result one_run(const Setup &su, Rng &rng) {
  FilePropertiesProvider p;
  p.append_file_content(std::string{getenv("VF_REPO")} + "/config/" + su.file);
  p.set_property("slam/map/height_in_meters", "6"); p.set_property("slam/map/width_in_meters", "6");
  p.set_property("slam/scmtch/MC/seed", std::to_string(rng.below(1000000)));
  for (auto &o : su.over) { p.set_property(o.first, o.second); }
  std::shared_ptr<LaserScanGridWorld> w;
  if (su.slam == 2) { w = init_gmapping(p); } else if (su.slam == 3) { w = init_credibilist_slam(p); } else { w = init_1h_slam(p); }
  double size = rng.uni(3.5, 6);
  auto sc = Scene::room(rng, size);
  RobotPose truth{0, 0, 0}, odo{0, 0, 0};
  double turn = rng.uni(-0.05, 0.05), speed = rng.uni(0.02, 0.07), noise = rng.chance(0.1) ? 0 : rng.uni(0.7, 1.3);
  double bx = rng.pickd({-1, 1}) * rng.uni(.01, .03) * noise, bt = rng.uni(-.015, .015) * noise;
  int steps = rng.range(25, 45), beams = rng.range(150, 270);
  double fov = rng.pickd({2 * M_PI, 4.7});
  double worst = 0, worst_th = 0, odo_worst = 0, path = 0;
  std::vector<RobotPose> truths;
  for (int t = 0; t < steps; ++t) {
    RobotPoseDelta local{0, 0, 0};
    if (t) {
      auto next = RobotPose{truth.x + speed * std::cos(truth.theta), truth.y + speed * std::sin(truth.theta), truth.theta + turn};
      if (sc.cast({truth.x, truth.y}, truth.theta) < 0.8) { next = RobotPose{truth.x, truth.y, truth.theta + 0.08}; }
      auto prev = truth; truth = next; path += std::hypot(truth.x - prev.x, truth.y - prev.y);
      double dx = truth.x - prev.x, dy = truth.y - prev.y, dt = truth.theta - prev.theta, c = std::cos(-prev.theta), s = std::sin(-prev.theta);
      double fx = c * dx - s * dy + bx + noise * rng.uni(-.02, .02), fy = s * dx + c * dy + noise * rng.uni(-.02, .02), ft = dt + bt + noise * rng.uni(-.012, .012);
      // odometry reports the move in its own frame
      auto po = odo; c = std::cos(po.theta); s = std::sin(po.theta);
      odo = RobotPose{po.x + c * fx - s * fy, po.y + s * fx + c * fy, po.theta + ft};
      local = odo - po;
    }
    TransformedLaserScan ts; ts.quality = 1; ts.pose_delta = local;
    ts.scan = sc.scan(truth, beams, 15, fov);
    w->handle_sensor_data(ts);
    truths.push_back(truth);
    auto e = w->pose();
    worst = std::max(worst, std::hypot(e.x - truth.x, e.y - truth.y)); worst_th = std::max(worst_th, std::abs(std::remainder(e.theta - truth.theta, 2 * M_PI)));
    odo_worst = std::max(odo_worst, std::hypot(odo.x - truth.x, odo.y - truth.y));
    count("poses");
  }
  // the map against the room
  const GridMap &m = w->map(); int wall = 0, wall_ok = 0, fr = 0, free_ok = 0;
  for (auto &b : sc.walls) {
    double l = std::hypot(b.second.x - b.first.x, b.second.y - b.first.y);
    for (double d = 0.05; d < l; d += 0.1) {
      Point2D q{b.first.x + (b.second.x - b.first.x) * d / l, b.first.y + (b.second.y - b.first.y) * d / l};
      bool seen = false;
      for (auto &t : truths) {
        double a = std::atan2(q.y - t.y, q.x - t.x);
        if (fov / 2 - 0.05 < std::abs(std::remainder(a - t.theta, 2 * M_PI))) { continue; }
        double r = std::hypot(q.x - t.x, q.y - t.y);
        if (std::abs(sc.cast({t.x, t.y}, a) - r) < 0.01 && r < 4) { seen = true; break; }
      }
      if (!seen) { continue; }
      ++wall; auto c = m.world_to_cell(q.x, q.y); bool ok = false;
      for (int x = -2; x <= 2; ++x) for (int y = -2; y <= 2; ++y) { auto n = C(c.x + x, c.y + y); ok |= m.has_cell(n) && 0.5 < m[n].occupancy().prob_occ; }
      wall_ok += ok;
    }
  }
  for (auto &t : truths) for (int k = 0; k < 12; ++k) {
    double a = t.theta + (k - 6) * 0.3, r = sc.cast({t.x, t.y}, a) - 0.9;
    for (double d = 0.3; d < std::min(r, 3.0); d += 0.3) {
      Point2D q{t.x + d * std::cos(a), t.y + d * std::sin(a)};
      double near_wall = 1e9; for (int j = 0; j < 8; ++j) { near_wall = std::min(near_wall, sc.cast(q, j * M_PI / 4)); }
      if (near_wall < 0.7) { continue; }
      auto c = m.world_to_cell(q.x, q.y); ++fr; free_ok += m.has_cell(c) && m[c].occupancy().prob_occ < 0.5;
    }
  }
  count("runs"); count("wall_cells", wall); count("free_cells", fr); eval(); distinct(Hash{}.add(worst).add(worst_th).h);
  if (getenv("VF_STAT")) { fprintf(stderr, "STAT %s err %.3f th %.3f odo %.3f wall %.3f free %.3f noise %.2f steps %d\n", su.name, worst, worst_th, odo_worst, wall < 20 ? 1 : wall_ok * 1.0 / wall, free_ok * 1.0 / std::max(1, fr), noise, steps); }
  std::ostringstream os; os << su.name << ", " << steps << " scans, odometry off by up to " << odo_worst << " m";
  auto what = os.str();
  VF_CHECK(std::isfinite(worst + worst_th), "finite", what);
  return {worst, worst_th, 20 <= wall && (su.slam != 2 || 1.5 < path) ? wall_ok * 1.0 / wall : -1, 20 <= fr ? free_ok * 1.0 / fr : -1};
}
double median(std::vector<double> v) { std::sort(v.begin(), v.end()); return v[v.size() / 2]; }
} // namespace
FAMILY(tracking, 33, 660) {
  MuteLog mute;
  auto &su = setups()[st().idx % setups().size()];
  std::vector<double> e, th, wl, fr; std::ostringstream all;
  for (int k = 0; k < 15; ++k) {
    auto r = one_run(su, rng); e.push_back(r.err); th.push_back(r.th); all << " " << r.err << "/" << r.th << "/" << r.wall << "/" << r.fr;
    if (0 <= r.wall) { wl.push_back(r.wall); } if (0 <= r.fr) { fr.push_back(r.fr); }
  }
  VF_CHECK(median(e) <= su.lim.err, "position", su.name << ": median of the worst position errors is " << median(e) << ", limit " << su.lim.err << "; runs:" << all.str());
  VF_CHECK(median(th) <= su.lim.th, "heading", su.name << ": median of the worst heading errors is " << median(th) << ", limit " << su.lim.th << "; runs:" << all.str());
  if (5 <= wl.size()) { VF_CHECK(su.lim.wall <= median(wl), "walls", su.name << ": only " << median(wl) << " of visible wall spots are on the map; runs:" << all.str()); count("wall_checks"); }
  if (5 <= fr.size()) { VF_CHECK(0.95 <= median(fr), "free-space", su.name << ": only " << median(fr) << " of the free space is free on the map; runs:" << all.str()); }
  count("series");
}
VF_MAIN
