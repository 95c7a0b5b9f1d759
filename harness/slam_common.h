#ifndef VF_SLAM_COMMON_H
#define VF_SLAM_COMMON_H
// Random configurations of complete SLAMs and hostile scans.
#include "scene_common.h"
#include "utils/init_slam.h"
#include "slams/gmapping/init_gmapping.h"
#include "slams/credibilist/init_slam.h"
namespace vf {
inline std::string num(double v) { std::ostringstream o; o << std::setprecision(15) << v; return o.str(); }
struct Cfg { MapPropertiesProvider p; std::string what; int kind; bool bounded; double size, scale;
  void set(const std::string &k, const std::string &v) { p.set_property(k, v); what += " " + k.substr(k.rfind('/', k.rfind('/') - 1) + 1) + "=" + v; }
  void set(const std::string &k, double v) { set(k, num(v)); } };

inline Cfg make_cfg(Rng &rng) {
  Cfg c;
  c.kind = rng.below(4); // 0,1: single hypothesis, 2: gmapping, 3: credibilist
  c.scale = rng.pickd({0.1, 0.1, 0.2, 0.25, 0.05});
  c.size = c.scale * rng.range(20, 60);
  c.set("slam/map/height_in_meters", rng.chance(0.1) ? c.scale : c.size * rng.uni(0.5, 1));
  c.set("slam/map/width_in_meters", rng.chance(0.1) ? c.scale : c.size * rng.uni(0.5, 1));
  c.set("slam/map/meters_per_cell", c.scale);
  if (rng.chance(0.7)) { c.set("slam/mapping/blur", rng.pickd({0, 0.1, 0.3, 0.5, 2, -0.3})); }
  if (rng.chance(0.4)) { c.set("slam/mapping/max_range", rng.pickd({0.5, 2, 100, 0, 1e9})); }
  if (rng.chance(0.5)) { c.set("slam/mapping/corrected_pose_quality", rng.pickd({0, 0.9, 1})); }
  if (rng.chance(0.5)) { c.set("slam/mapping/raw_pose_quality", rng.pickd({0, 0.6, 1})); }
  c.set("slam/mapping/observation_quality_estimator/type", rng.chance(0.7) ? "idle" : "ahr");
  const char *grids[] = {"plain", "unbounded_plain", "lazy_tiled", "unbounded_lazy_tiled"};
  int g = rng.below(4); c.bounded = c.kind != 2 && g % 2 == 0;
  c.set("slam/mapping/grid/type", grids[g]);
  const char *areas[] = {"tbm_consistent", "tbm_unknown_even_occ", "affine_quality_merge", "mean_probability"};
  c.set("slam/mapping/grid/area/type", areas[rng.below(4)]);
  c.set("slam/occupancy_estimator/type", rng.chance(0.6) ? "const" : "area");
  if (rng.chance(0.6)) {
    c.set("slam/occupancy_estimator/base_occupied/prob", rng.pickd({0.5, 0.6, 0.95, 1}));
    c.set("slam/occupancy_estimator/base_occupied/qual", rng.pickd({0, 0.05, 0.3, 0.9, 1}));
    c.set("slam/occupancy_estimator/base_empty/prob", rng.pickd({0, 0.01, 0.3, 0.5}));
    c.set("slam/occupancy_estimator/base_empty/qual", rng.pickd({0, 0.05, 0.3, 0.9, 1}));
  }
  const char *sms[] = {"MC", "HC", "BF", "BF_M3RSM", "idle", "HC_FIXED"};
  int sm = rng.below(6); c.set("slam/scmtch/type", sms[sm]);
  c.set("slam/scmtch/spe/type", "wmpp");
  const char *ws[] = {"even", "viny", "ahr"}; c.set("slam/scmtch/spe/wmpp/weighting/type", ws[rng.below(3)]);
  if (rng.chance(0.4)) { c.set("slam/scmtch/spe/wmpp/sp_skip_rate", std::to_string(rng.below(6))); }
  if (rng.chance(0.4)) { c.set("slam/scmtch/spe/wmpp/sp_max_usable_range", rng.pickd({-1, 0, 0.3, 2, 50})); }
  if (c.kind == 2) {
    if (rng.chance(0.6)) { c.set("slam/scmtch/oope/type", "custom"); c.set("slam/scmtch/oope/custom/fullness_threshold", rng.pickd({0, 0.1, 0.5, 1}));
      c.set("slam/scmtch/oope/custom/window_size", std::to_string(rng.below(4))); }
    c.set("slam/particles/number", std::to_string(rng.range(1, 5)));
    if (rng.chance(0.7)) {
      for (auto n : {"sample/xy/mean", "sample/theta/mean"}) { c.set(std::string{"slam/particles/"} + n, rng.pickd({0, 0.05, -0.1})); }
      for (auto n : {"sample/xy/sigma", "sample/theta/sigma"}) { c.set(std::string{"slam/particles/"} + n, rng.pickd({0, 0.03, 0.3})); }
      double a = rng.uni(0, 0.5), b = rng.uni(0, 0.3);
      c.set("slam/particles/sm_delta_lim/xy/min", a); c.set("slam/particles/sm_delta_lim/xy/max", a + rng.pickd({0, 0.2}));
      c.set("slam/particles/sm_delta_lim/theta/min", b); c.set("slam/particles/sm_delta_lim/theta/max", b + rng.pickd({0, 0.2}));
    }
  } else {
    const char *oopes[] = {"obstacle", "max", "mean", "overlap"};
    c.set("slam/scmtch/oope/type", oopes[rng.below(4)]);
  }
  c.set("slam/scmtch/oie/type", rng.chance(0.5) ? "discrepancy" : "occupancy");
  if (sm == 0) {
    c.set("slam/scmtch/MC/seed", std::to_string(rng.below(100000)));
    c.set("slam/scmtch/MC/attempts_limit", num(rng.pickd({0, 1, 10, 30})));
    c.set("slam/scmtch/MC/dispersion/failed_attempts_limit", num(rng.pickd({0, 1, 8})));
    c.set("slam/scmtch/MC/dispersion/translation", rng.pickd({0, 0.05, 0.2, 1}));
    c.set("slam/scmtch/MC/dispersion/rotation", rng.pickd({0, 0.02, 0.1, 1}));
  } else if (sm == 1) {
    c.set("slam/scmtch/HC/distortion/failed_attempts_limit", std::to_string(rng.below(5)));
    c.set("slam/scmtch/HC/distortion/translation", rng.pickd({0, 0.05, 0.1, 0.4}));
    c.set("slam/scmtch/HC/distortion/rotation", rng.pickd({0, 0.02, 0.1, 0.4}));
    c.set("slam/scmtch/HC/use_frame_alignement", rng.chance(0.5) ? "true" : "false");
  } else if (sm == 2) {
    for (auto d : {"x", "y", "t"}) {
      double st = rng.pickd({0.03, 0.05, 0.1}), lo = -st * rng.below(3), hi = st * rng.below(3);
      c.set(std::string{"slam/scmtch/BF/"} + d + "/from", lo); c.set(std::string{"slam/scmtch/BF/"} + d + "/to", hi);
      c.set(std::string{"slam/scmtch/BF/"} + d + "/step", st);
    }
  } else if (sm == 3) {
    c.set("slam/scmtch/BF_M3RSM/accuracy/rotation", rng.pickd({0.02, 0.05, 0.1}));
    c.set("slam/scmtch/BF_M3RSM/accuracy/translation", c.scale * rng.pickd({0.5, 1, 2}));
    c.set("slam/scmtch/BF_M3RSM/limits/x_translation", c.scale * rng.pickd({0.5, 1, 3}));
    c.set("slam/scmtch/BF_M3RSM/limits/y_translation", c.scale * rng.pickd({0.5, 1, 3}));
    c.set("slam/scmtch/BF_M3RSM/limits/rotation", rng.pickd({0.02, 0.05, 0.1}));
  }
  if (rng.chance(0.2)) { c.set("slam/scmtch/use_amb_drift_detector", "true"); }
  return c;
}

inline LaserScan2D hostile(Rng &rng, const Cfg &c, std::string &what) {
  LaserScan2D s; auto &pts = s.points();
  int n = rng.range(1, 30);
  double big = c.scale * (c.bounded ? 3000 : 200);
  switch (rng.below(9)) {
  case 0: what = "empty"; break;
  case 1: what = "all max range"; for (int i = 0; i < n; ++i) { pts.emplace_back(c.size / 2, -M_PI + i * 2 * M_PI / n, false); } break;
  case 2: what = "zero ranges"; for (int i = 0; i < n; ++i) { pts.emplace_back(0, rng.uni(-M_PI, M_PI), rng.chance(0.7)); } break;
  case 3: what = "very long"; for (int i = 0; i < n; ++i) { pts.emplace_back(rng.uni(0, big), rng.uni(-M_PI, M_PI), rng.chance(0.7)); } break;
  case 4: what = "one point"; pts.emplace_back(rng.uni(0, c.size), rng.pickd({0, M_PI, -M_PI, M_PI / 2, 100, rng.uni(-3, 3)}), rng.chance(0.7)); break;
  case 5: what = "axis aligned"; for (int i = 0; i < n; ++i) { pts.emplace_back(c.scale * rng.range(0, 20), rng.below(8) * M_PI / 4 - M_PI, rng.chance(0.7)); } break;
  case 6: what = "same point"; { double r = rng.uni(0, c.size), a = rng.uni(-3, 3); for (int i = 0; i < n; ++i) { pts.emplace_back(r, a, true); } } break;
  case 7: what = "tiny ranges"; for (int i = 0; i < n; ++i) { pts.emplace_back(rng.pickd({1e-300, 5e-324, 1e-12, c.scale / 2, c.scale}), rng.uni(-M_PI, M_PI), true); } break;
  default: what = "random"; for (int i = 0; i < n; ++i) { pts.emplace_back(std::abs(rng.uni(-1, 1)) * c.size, rng.uni(-10, 10), rng.chance(0.8)); } break;
  }
  return s;
}
inline std::shared_ptr<LaserScanGridWorld> make_slam(const Cfg &c) {
  if (c.kind == 2) { return init_gmapping(c.p); }
  if (c.kind == 3) { return init_credibilist_slam(c.p); }
  return init_1h_slam(c.p);
}
} // namespace vf
#endif
