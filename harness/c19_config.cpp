// C19: configuration values are read faithfully and take effect.
#include "scene_common.h"
#include "utils/init_slam.h"
#include "slams/gmapping/init_gmapping.h"
#include "slams/credibilist/init_slam.h"
#include <sys/stat.h>
#include <sys/wait.h>
#include <dirent.h>
using namespace vf;
REQUIRE_EVENTS("files_parsed", 1000)
REQUIRE_EVENTS("typed_reads", 20000)
REQUIRE_EVENTS("included_files", 1000)
REQUIRE_EVENTS("overrides", 300)
REQUIRE_EVENTS("components_compared", 2000)
REQUIRE_EVENTS("refused", 30)
REQUIRE_EVENTS("shipped_files", 10)

namespace {
struct Logged : MapPropertiesProvider { // remembers which keys were asked for
  mutable std::set<std::string> asked;
  int get_int(const std::string &i, int d) const override { asked.insert(i); return MapPropertiesProvider::get_int(i, d); }
  double get_dbl(const std::string &i, double d) const override { asked.insert(i); return MapPropertiesProvider::get_dbl(i, d); }
  std::string get_str(const std::string &i, const std::string &d) const override { asked.insert(i); return MapPropertiesProvider::get_str(i, d); }
  unsigned get_uint(const std::string &i, unsigned d) const override { asked.insert(i); return MapPropertiesProvider::get_uint(i, d); }
  bool get_bool(const std::string &i, bool d) const override { asked.insert(i); return MapPropertiesProvider::get_bool(i, d); }
};
std::string num(double v) { std::ostringstream o; o << std::setprecision(15) << v; return o.str(); }

struct TmpDir {
  std::string path;
  TmpDir() { char b[] = "/tmp/vf_c19_XXXXXX"; if (!mkdtemp(b)) { perror("mkdtemp"); exit(3); } path = b; }
  ~TmpDir() { for (auto it = made.rbegin(); it != made.rend(); ++it) { ::remove(it->c_str()); } ::remove(path.c_str()); }
  std::vector<std::string> made;
  void dir(const std::string &d) { mkdir((path + "/" + d).c_str(), 0700); made.push_back(path + "/" + d); }
  std::string file(const std::string &f, const std::string &c) { std::ofstream{path + "/" + f} << c; made.push_back(path + "/" + f); return path + "/" + f; }
};
} // namespace

FAMILY(files, 800, 20000) {
  MuteLog mute;
  TmpDir td;
  td.dir("sub"); td.dir("sub/deep");
  std::map<std::string, std::string> model;
  std::vector<std::string> keys = {"a", "b/c", "b/c/d", "slam/x", "slam/y", "k e y", "z", "w#"};
  int files = 0;
  // generates a file, and plays its content on the model in reading order
  std::function<std::string(const std::string &, int)> gen = [&](const std::string &dir, int depth) -> std::string {
    std::ostringstream body;
    int n = rng.range(0, 12);
    for (int i = 0; i < n; ++i) {
      switch (rng.below(10)) {
      case 0: body << "# comment " << rng.pick(keys) << "=no\n"; break;
      case 1: body << "\n"; break;
      case 2: body << "a line without delimiter\n"; break;
      case 3: body << "<not/closed.properties\n"; break;
      case 4: if (rng.chance(0.3)) { body << "<missing_file.properties>\n"; break; } // fallthrough
      case 5: if (depth < 3) {
        static const char *const rel[3][3] = {{"./", "sub/", "sub/deep/"}, {"../", "./", "deep/"}, {"../../", "../", "./"}};
        int from = dir == "" ? 0 : dir == "sub/" ? 1 : 2, to = rng.below(3);
        static const char *const names[] = {"", "sub/", "sub/deep/"};
        auto f = gen(names[to], depth + 1); // its content is played here
        body << "<" << rel[from][to] << f << ">\n"; count("included_files");
      } break;
      default: {
        std::string v;
        switch (rng.below(8)) {
        case 0: v = std::to_string(rng.range(-1000, 1000)); break;
        case 1: v = num(rng.uni(-10, 10)); break;
        case 7: // up to the ends of the types
          v = std::to_string(rng.chance(0.6) ? 4294967295LL - (long long)rng.below(2100000000) : rng.chance(0.5) ? 2147483647LL - (int)rng.below(9) : -2147483648LL + (int)rng.below(9));
          count("big_numbers"); break;
        case 2: v = rng.chance(0.5) ? "true" : "false"; break;
        case 3: v = "x=y=" + std::to_string(rng.below(9)); break;
        case 4: v = rng.chance(0.5) ? "0" : "1"; break;
        case 5: if (rng.chance(0.3)) { v = ""; count("empty_values"); } else { v = "/some/path with spaces.bag"; } break;
        default: v = std::to_string(rng.below(100)); break;
        }
        auto k = rng.pick(keys);
        if (model.count(k)) { count("overrides"); }
        model[k] = v;
        body << k << "=" << v << "\n";
      }
      }
    }
    auto s = body.str();
    if (s.size() && rng.chance(0.3)) { s.pop_back(); } // no newline at the end
    auto name = "f" + std::to_string(files++) + ".properties";
    td.file(dir + name, s);
    return name;
  };
  FilePropertiesProvider fp;
  auto check = [&](const std::string &what) {
    std::set<std::string> avail;
    for (auto &k : fp.available_properties()) { avail.insert(k); }
    for (auto &kv : model) { VF_CHECK(avail.count(kv.first), "not-listed", what << ": " << kv.first); }
    VF_CHECK(avail.size() == model.size(), "extra-keys", what << ": " << avail.size() << " keys, want " << model.size());
    for (auto &k : keys) {
      bool has = model.count(k);
      auto v = has ? model[k] : std::string{};
      VF_CHECK(fp.get_str(k, "dflt!") == (has ? v : "dflt!"), "str", what << ": " << k << " reads " << fp.get_str(k, "dflt!") << ", want " << v);
      double dd = rng.uni(-5, 5); int di = rng.range(-9, 9);
      if (!has) {
        VF_CHECK(fp.get_dbl(k, dd) == dd && fp.get_int(k, di) == di && fp.get_uint(k, 7u) == 7u && fp.get_bool(k, true) && !fp.get_bool(k, false),
                 "default", what << ": " << k);
      } else {
        char *e; double num = std::strtod(v.c_str(), &e);
        bool isnum = *e == 0 && v.size();
        if (isnum) {
          VF_CHECK(fp.get_dbl(k, dd) == num, "dbl", what << ": " << k << "=" << v << " reads " << fp.get_dbl(k, dd));
          if (v.find('.') == std::string::npos && v.find('e') == std::string::npos) {
            if (num <= 2147483647.0) { VF_CHECK(fp.get_int(k, di) == (int)num, "int", what << ": " << k << "=" << v); }
            if (0 <= num) { VF_CHECK(fp.get_uint(k, 7u) == (unsigned)num, "uint", what << ": " << k << "=" << v); }
          }
        }
        if (v == "true" || v == "1") { VF_CHECK(fp.get_bool(k, false), "bool", what << ": " << k << "=" << v); }
        if (v == "false" || v == "0") { VF_CHECK(!fp.get_bool(k, true), "bool", what << ": " << k << "=" << v); }
      }
      count("typed_reads"); eval();
      distinct(Hash().add((uint64_t)std::hash<std::string>{}(v)).add((uint64_t)std::hash<std::string>{}(k)));
    }
  };
  check("nothing read");
  for (int i = 0, n = rng.range(1, 3); i < n; ++i) {
    auto f = gen("", 0);
    fp.append_file_content(td.path + "/" + f);
    count("files_parsed");
    check("after file " + std::to_string(i));
    if (rng.chance(0.2)) { fp.append_file_content(td.path + "/nowhere.properties"); check("after a missing file"); }
    if (rng.chance(0.3)) { auto k = rng.pick(keys); model[k] = "set"; fp.set_property(k, "set"); check("after an explicit assignment"); }
  }
}

// ---------------------------------------------------------------- components
namespace {
struct Cfg {
  Logged p; Rng &rng;
  Cfg(Rng &r) : rng(r) {}
  // a value that may stay unset (then the documented default holds)
  double d(const std::string &k, double dflt, double lo, double hi) {
    if (rng.chance(0.4)) { return dflt; }
    double v = std::stod(num(rng.uni(lo, hi))); p.set_property(k, num(v)); return v;
  }
  long i(const std::string &k, long dflt, long lo, long hi) {
    if (rng.chance(0.4)) { return dflt; }
    long v = rng.range(lo, hi); p.set_property(k, std::to_string(v)); return v;
  }
  int t(const std::string &k, int dflt, std::vector<std::string> vs) { // dflt < 0: must be set
    if (0 <= dflt && rng.chance(0.3)) { return dflt; }
    int v = rng.below(vs.size()); p.set_property(k, vs[v]); return v;
  }
};
const auto Pi180 = M_PI / 180;
bool same_occ(const Occupancy &a, const Occupancy &b) {
  return near(a.prob_occ, b.prob_occ, 1e-12) && near(a.estimation_quality, b.estimation_quality, 1e-12);
}
std::shared_ptr<GridCell> ref_cell(int k) {
  switch (k) {
  case 0: return std::make_shared<TbmOccConsistentCell>();
  case 1: return std::make_shared<TbmUnknownEvenOccCell>();
  case 2: return std::make_shared<AffineQualityMergeCell>();
  case 3: return std::make_shared<MeanProbabilityCell>();
  default: return std::make_shared<CredibilistCell>();
  }
}
std::shared_ptr<GridScanMatcher> ref_matcher(Cfg &c, std::shared_ptr<ScanProbabilityEstimator> spe, int &type, std::string &desc) {
  const std::string N = "slam/scmtch/";
  type = c.t(N + "type", -1, {"MC", "HC", "BF", "BF_M3RSM", "idle", "HC_FIXED"});
  // settings of all matchers are present at once: only the selected one's may matter
  double mct = c.d(N + "MC/dispersion/translation", .2, .05, .4), mcr = c.d(N + "MC/dispersion/rotation", .1, .02, .3);
  long mcf = c.i(N + "MC/dispersion/failed_attempts_limit", 20, 3, 30), mca = c.i(N + "MC/attempts_limit", 100, 1, 60);
  long seed = c.rng.chance(.3) ? -c.rng.range(1, 1 << 30) : c.rng.range(0, 1 << 30); c.p.set_property(N + "MC/seed", std::to_string(seed));
  double hct = c.d(N + "HC/distortion/translation", .1, .02, .3), hcr = c.d(N + "HC/distortion/rotation", .1, .02, .3);
  long hcf = c.i(N + "HC/distortion/failed_attempts_limit", 6, 1, 8);
  bool al = false;
  if (c.rng.chance(0.5)) { al = c.rng.chance(0.5); c.p.set_property(N + "HC/use_frame_alignement", al ? "true" : "false"); }
  double r[9]; const char *ax[] = {"x", "y", "t"};
  for (int a = 0; a < 3; ++a) {
    double lim = a < 2 ? .5 : 5 * Pi180, st = a < 2 ? .1 : Pi180;
    r[3 * a] = c.d(N + "BF/" + ax[a] + "/from", -lim, -lim, 0); r[3 * a + 1] = c.d(N + "BF/" + ax[a] + "/to", lim, 0.01, lim);
    r[3 * a + 2] = c.d(N + "BF/" + ax[a] + "/step", st, 2 * st, 4 * st);
  }
  double ar = c.d(N + "BF_M3RSM/accuracy/rotation", .1 * Pi180, .05, .1), at = c.d(N + "BF_M3RSM/accuracy/translation", .05, .05, .2);
  double lx = c.d(N + "BF_M3RSM/limits/x_translation", 1, .1, .5), ly = c.d(N + "BF_M3RSM/limits/y_translation", 1, .1, .5);
  double lr = c.d(N + "BF_M3RSM/limits/rotation", 5 * Pi180, .02, .1);
  std::shared_ptr<GridScanMatcher> sm;
  switch (type) {
  case 0: desc = "MC"; sm = std::make_shared<MonteCarloScanMatcher>(spe, (unsigned)seed, mct, mcr, mcf, mca); break;
  case 1: desc = "HC"; sm = std::make_shared<HillClimbingScanMatcher>(spe, hcf, hct, hcr, al); break;
  case 2: desc = "BF"; sm = std::make_shared<BruteForceScanMatcher>(spe, r[0], r[1], r[2], r[3], r[4], r[5], r[6], r[7], r[8]); break;
  case 3: desc = "M3RSM"; sm = std::make_shared<BruteForceMultiResolutionScanMatcher>(spe, lx, ly, lr, ar, at); break;
  case 4: desc = "idle"; sm = std::make_shared<NoActionScanMatcher>(spe); break;
  default: desc = "HC_FIXED"; sm = std::make_shared<HillClimbingSMFixed>(spe);
  }
  if (c.rng.chance(0.4)) {
    bool dd = c.rng.chance(0.6); c.p.set_property(N + "use_amb_drift_detector", dd ? "true" : "false");
    if (dd) { sm = std::make_shared<ConnectTheDotsAmbiguousDriftDetector>(sm); desc += " with drift detection"; count("drift_detectors"); }
  }
  return sm;
}
template <typename MapT>
bool same_levels(GridMap &got, std::shared_ptr<ObservationImpactEstimator> oie, std::shared_ptr<GridCell> cell, GridMapParams gp,
                 const std::vector<std::pair<C, AreaOccupancyObservation>> &obs, std::string &diff) {
  using M = M3RSMRescalableGridMap<MapT>;
  auto g = dynamic_cast<M *>(&got);
  if (!g) { diff = "another type of map"; return false; }
  M want{oie, cell, gp};
  for (auto &o : obs) { g->update(o.first, o.second); want.update(o.first, o.second); }
  bool same = true;
  for (unsigned id = 0; id + 1 < want.scales_nm() && id + 1 < g->scales_nm(); ++id) {
    g->set_scale_id(id); want.set_scale_id(id);
    for (auto &o : obs) {
      auto k = want.world_to_cell(o.second.obstacle);
      if (!want.has_cell(k)) { continue; }
      double a = (*g)[k].occupancy().prob_occ, b = want[k].occupancy().prob_occ;
      count("level_cells_compared");
      if (!near(a, b)) { diff = "level " + std::to_string(id) + ": " + num(a) + " want " + num(b); same = false; }
    }
  }
  g->set_scale_id(0);
  return same;
}
std::shared_ptr<ScanProbabilityEstimator> ref_spe(Cfg &c, std::string &desc, std::shared_ptr<ObservationImpactEstimator> *oie_out = nullptr) {
  const std::string N = "slam/scmtch/";
  int ty = c.t(N + "oope/type", 0, {"obstacle", "max", "mean", "overlap"}), oi = c.t(N + "oie/type", 0, {"discrepancy", "occupancy"});
  std::shared_ptr<ObservationImpactEstimator> oie;
  if (oi == 0) { oie = std::make_shared<DiscrepancyOIE>(); } else { oie = std::make_shared<OccupancyOIE>(); }
  if (oie_out) { *oie_out = oie; }
  std::shared_ptr<OccupancyObservationProbabilityEstimator> oope;
  if (ty == 0) { oope = std::make_shared<ObstacleBasedOccupancyObservationPE>(oie); }
  else if (ty == 1) { oope = std::make_shared<MaxOccupancyObservationPE>(oie); }
  else if (ty == 2) { oope = std::make_shared<MeanOccupancyObservationPE>(oie); }
  else { oope = std::make_shared<OverlapWeightedOccupancyObservationPE>(oie); }
  c.p.set_property(N + "spe/type", "wmpp");
  int w = c.t(N + "spe/wmpp/weighting/type", -1, {"even", "viny", "ahr"});
  long skip = c.i(N + "spe/wmpp/sp_skip_rate", 0, 0, 4); double range = c.d(N + "spe/wmpp/sp_max_usable_range", -1, 1, 6);
  desc = "oope " + std::to_string(ty) + " oie " + std::to_string(oi) + " weighting " + std::to_string(w) + " skip " + std::to_string(skip)
         + " range " + num(range);
  return std::make_shared<WeightedMeanPointProbabilitySPE>(oope, make_spw(w), skip, range);
}
} // namespace

FAMILY(components, 400, 12000) {
  MuteLog mute;
  Cfg c{rng};
  std::string sd, md;
  std::shared_ptr<ObservationImpactEstimator> roie;
  auto rspe = ref_spe(c, sd, &roie);
  int mtype;
  auto rsm = ref_matcher(c, rspe, mtype, md);
  // the map
  int kind = c.t("slam/mapping/grid/type", -1, {"plain", "lazy_tiled", "unbounded_plain", "unbounded_lazy_tiled"});
  int cell = c.t("slam/mapping/grid/area/type", -1, {"tbm_consistent", "tbm_unknown_even_occ", "affine_quality_merge", "mean_probability"});
  double h = c.d("slam/map/height_in_meters", 10, 4, 14), w = c.d("slam/map/width_in_meters", 10, 4, 14);
  double m = c.rng.chance(0.4) ? 0.1 : c.rng.pickd({0.2, 0.25, 0.5});
  if (m != 0.1 || c.rng.chance(0.5)) { c.p.set_property("slam/map/meters_per_cell", num(m)); }
  // the integration
  Occupancy bo{c.d("slam/occupancy_estimator/base_occupied/prob", .95, .5, 1), c.d("slam/occupancy_estimator/base_occupied/qual", 1, .1, 1)};
  Occupancy be{c.d("slam/occupancy_estimator/base_empty/prob", .01, 0, .4), c.d("slam/occupancy_estimator/base_empty/qual", 1, .1, 1)};
  int oe = c.t("slam/occupancy_estimator/type", 0, {"const", "area"});
  double blur = c.d("slam/mapping/blur", 0, -.1, .8), mr = c.d("slam/mapping/max_range", std::numeric_limits<double>::infinity(), 1, 6);
  int omqe = c.t("slam/mapping/observation_quality_estimator/type", 0, {"idle", "ahr"});
  double cq = c.d("slam/mapping/corrected_pose_quality", 1, .1, 1), rq = c.d("slam/mapping/raw_pose_quality", .5, .1, 1);
  auto what = md + "; " + sd;

  auto gp = init_grid_map_params(c.p);
  VF_CHECK(gp.width_cells == (int)std::ceil(w / m) && gp.height_cells == (int)std::ceil(h / m) && gp.meters_per_cell == m, "map-params",
           "width " << w << " height " << h << " scale " << m << ": got " << gp.width_cells << "x" << gp.height_cells << " of " << gp.meters_per_cell);
  auto map = init_grid_map(c.p);
  VF_CHECK(map->width() == gp.width_cells && map->height() == gp.height_cells && map->scale() == m, "map-size", Geo(*map).str());
  C far(map->width() * 5, -map->height() * 5);
  VF_CHECK(map->has_cell(far) == is_unbounded(kind), "map-kind", "kind " << kMapKinds[kind]);
  {
    std::string tn = typeid(*map).name();
    bool lazy = tn.find("Lazy") != std::string::npos;
    VF_CHECK(lazy == (kind == 1 || kind == 3), "map-kind-type", tn);
    VF_CHECK((tn.find("Rescal") != std::string::npos) == (mtype == 3), "map-rescalable", tn << " for " << md);
  }
  if (mtype == 3) { // the coarse levels follow the configured estimate of impact
    auto lm = init_grid_map(c.p);
    std::vector<std::pair<C, AreaOccupancyObservation>> obs;
    for (int i = 0, n = rng.range(4, 40); i < n; ++i) {
      C k(rng.range(-6, 5), rng.range(-6, 5));
      auto o = mk_obs(rng.unit(), rng.uni(.2, 1), rng.uni(.2, 1), rng.chance(0.5), lm->cell_to_world(k));
      if (lm->has_cell(k)) { obs.emplace_back(k, o); }
    }
    std::string diff;
    bool same = kind == 0 ? same_levels<PlainGridMap>(*lm, roie, ref_cell(cell), gp, obs, diff) :
      kind == 1 ? same_levels<LazyTiledGridMap>(*lm, roie, ref_cell(cell), gp, obs, diff) :
      kind == 2 ? same_levels<UnboundedPlainGridMap>(*lm, roie, ref_cell(cell), gp, obs, diff) :
                  same_levels<UnboundedLazyTiledGridMap>(*lm, roie, ref_cell(cell), gp, obs, diff);
    VF_CHECK(same, "map-levels", sd << " cell " << cell << " map " << kMapKinds[kind] << ": " << diff);
  }
  // cell model: same reaction to the same updates
  auto rc = ref_cell(cell);
  for (int i = 0; i < 6; ++i) {
    auto o = mk_obs(rng.unit(), rng.uni(.2, 1), rng.uni(.2, 1), rng.chance(0.5));
    map->update(C(0, 0), o); *rc += o;
    VF_CHECK(near((*map)[C(0, 0)].occupancy().prob_occ, rc->occupancy().prob_occ) && near((*map)[C(0, 0)].discrepancy(o), rc->discrepancy(o)),
             "cell-model", "model " << cell << " update " << i << ": " << (*map)[C(0, 0)].occupancy() << " want " << rc->occupancy());
  }
  count("components_compared");
  // estimator
  auto est = init_occ_estimator(c.p);
  std::shared_ptr<CellOccupancyEstimator> rest;
  if (oe == 0) { rest = std::make_shared<ConstOccupancyEstimator>(bo, be); } else { rest = std::make_shared<AreaOccupancyEstimator>(bo, be); }
  for (int i = 0; i < 12; ++i) {
    Segment2D b{{rng.uni(-2, 2), rng.uni(-2, 2)}, {rng.uni(-2, 2), rng.uni(-2, 2)}};
    Rectangle a{-1, 1, -1, 1};
    bool occ = rng.chance(0.5);
    auto x = est->estimate_occupancy(b, a, occ), y = rest->estimate_occupancy(b, a, occ);
    VF_CHECK(same_occ(x, y), "occupancy-estimator", "type " << oe << ": " << x << " want " << y);
  }
  count("components_compared");
  // qualities
  double lq, oq; std::tie(lq, oq) = init_pose_quality_estimators(c.p);
  VF_CHECK(lq == cq && oq == rq, "pose-quality", lq << " " << oq << " want " << cq << " " << rq);
  // adder
  auto scene = Scene::room(rng, 3);
  RobotPose pose{rng.uni(-.4, .4), rng.uni(-.4, .4), rng.uni(-3, 3)};
  auto scan = scene.scan(pose, rng.range(15, 40), 7);
  auto rmap = make_map(2, ref_cell(cell), {30, 30, m}), amap = make_map(2, ref_cell(cell), {30, 30, m});
  std::shared_ptr<ObservationMappingQualityEstimator> rom;
  if (omqe == 0) { rom = std::make_shared<IdleOMQE>(); } else { rom = std::make_shared<AngleHistogramResiprocalOMQE>(); }
  auto radd = WallDistanceBlurringScanAdder::builder().set_occupancy_estimator(rest).set_observation_quality_estimator(rom)
    .set_blur_distance(blur).set_max_usable_range(mr).build();
  auto add = init_scan_adder(c.p);
  for (int i = 0; i < 2; ++i) { radd->append_scan(*rmap, pose, scan, .7, i); add->append_scan(*amap, pose, scan, .7, i); }
  VF_CHECK(map_digest(*rmap) == map_digest(*amap), "scan-adder", "blur " << blur << " max range " << mr << " estimator " << oe << " omqe " << omqe);
  count("components_compared");
  // estimator of scan probability
  auto spe = init_spe(c.p);
  auto f1 = spe->filter_scan(scan, pose, *rmap), f2 = rspe->filter_scan(scan, pose, *rmap);
  VF_CHECK(eq(snap(f1), snap(f2)), "scan-filter", sd << ": " << f1.points().size() << " points, want " << f2.points().size());
  for (int i = 0; i < 4; ++i) {
    RobotPose q{pose.x + rng.uni(-.3, .3), pose.y + rng.uni(-.3, .3), pose.theta + rng.uni(-.2, .2)};
    double z = rng.uni(0, .4);
    ScanProbabilityEstimator::SPEParams prm; prm.sp_analysis_area = LightWeightRectangle{-z, z, -z, z};
    double a = spe->estimate_scan_probability(f1, q, *rmap, prm), b = rspe->estimate_scan_probability(f2, q, *rmap, prm);
    VF_CHECK(near(a, b, 1e-12), "scan-probability", sd << ": " << a << " want " << b);
  }
  count("components_compared");
  // matcher
  auto sm = init_scan_matcher(c.p);
  std::shared_ptr<GridMap> mm;
  if (mtype == 3) { // needs a rescalable map
    auto oie = init_oie(c.p, false);
    mm = std::make_shared<M3RSMRescalableGridMap<UnboundedPlainGridMap>>(oie, ref_cell(cell), GridMapParams{30, 30, m});
    add->append_scan(*mm, pose, scan, .7, 0);
  }
  GridMap &on = mm ? *mm : *amap;
  for (int i = 0; i < 2; ++i) {
    TransformedLaserScan ts; ts.scan = scene.scan({pose.x + .1, pose.y - .05, pose.theta + .03}, 12, 7); ts.quality = 1;
    RobotPoseDelta d1, d2;
    auto q = RobotPose{pose.x + rng.uni(-.1, .1), pose.y, pose.theta};
    auto o1 = std::make_shared<RecObs>(), o2 = std::make_shared<RecObs>();
    sm->subscribe(o1); rsm->subscribe(o2);
    double a = sm->process_scan(ts, q, on, d1), b = rsm->process_scan(ts, q, on, d2);
    VF_CHECK(near(a, b, 1e-12) && near(d1.x, d2.x) && near(d1.y, d2.y) && near(d1.theta, d2.theta), "matcher:" + md,
             what << ": " << a << " " << d1 << " want " << b << " " << d2);
    VF_CHECK(o1->ev.size() == o2->ev.size(), "matcher-work:" + md, what << ": " << o1->ev.size() << " events, want " << o2->ev.size());
    for (size_t k = 0; k < o1->ev.size(); ++k) {
      VF_CHECK(o1->ev[k].kind == o2->ev[k].kind && same_pose(o1->ev[k].pose, o2->ev[k].pose), "matcher-poses:" + md,
               what << ": event " << k << " at " << ps(o1->ev[k].pose) << " want " << ps(o2->ev[k].pose));
    }
    distinct(Hash().add(a).add(d1.x).add(d1.theta).add(mtype));
  }
  count("components_compared");
  eval();
  // every setting given was looked at by somebody (no misspelt or dead key)
  for (auto &k : c.p.available_properties()) {
    bool other = (k.find("/MC/") != k.npos && mtype != 0) || (k.find("/HC/") != k.npos && mtype != 1) ||
                 (k.find("/BF/") != k.npos && mtype != 2) || (k.find("/BF_M3RSM/") != k.npos && mtype != 3);
    VF_CHECK(other || c.p.asked.count(k), "unread-key", k);
  }
  // and the whole SLAM uses the same settings
  if (mtype != 3 && rng.chance(0.5)) {
    auto slam = init_1h_slam(c.p);
    VF_CHECK(slam->map().width() == gp.width_cells && slam->map().height() == gp.height_cells && slam->map().scale() == m, "slam-map", Geo(slam->map()).str());
  }
}

FAMILY(gmapping, 200, 5000) {
  MuteLog mute;
  Cfg c{rng};
  long n = c.i("slam/particles/number", 30, 1, 60);
  VF_CHECK(init_particles_nm(c.p) == (unsigned)n, "particles-number", init_particles_nm(c.p) << " want " << n);
  double mxy = c.d("slam/particles/sample/xy/mean", 0, -1, 1), sxy = c.d("slam/particles/sample/xy/sigma", .1, .01, 1);
  double mt = c.d("slam/particles/sample/theta/mean", 0, -1, 1), st = c.d("slam/particles/sample/theta/sigma", .03, .01, 1);
  double lxy = c.d("slam/particles/sm_delta_lim/xy/min", .6, 0, .5), hxy = c.d("slam/particles/sm_delta_lim/xy/max", .8, .6, 2);
  double lt = c.d("slam/particles/sm_delta_lim/theta/min", .3, 0, .25), ht = c.d("slam/particles/sm_delta_lim/theta/max", .4, .3, 1);
  auto g = init_gmapping_params(c.p);
  double s[3] = {0, 0, 0}, q[3] = {0, 0, 0}, lo[3] = {9, 9, 9}, hi[3] = {-9, -9, -9};
  std::mt19937 e(rng.below(1000000));
  const int K = 600;
  for (int i = 0; i < K; ++i) {
    auto d = g.pose_guess_rv.sample(e), l = g.next_sm_delta_rv.sample(e);
    double dv[] = {d.x, d.y, d.theta}, lv[] = {l.x, l.y, l.theta};
    for (int k = 0; k < 3; ++k) { s[k] += dv[k]; q[k] += dv[k] * dv[k]; lo[k] = std::min(lo[k], lv[k]); hi[k] = std::max(hi[k], lv[k]); }
  }
  for (int k = 0; k < 3; ++k) {
    double mean = s[k] / K, sd = std::sqrt(std::max(0., q[k] / K - mean * mean));
    double wm = k < 2 ? mxy : mt, wsd = k < 2 ? sxy : st, wl = k < 2 ? lxy : lt, wh = k < 2 ? hxy : ht;
    VF_CHECK(std::abs(mean - wm) < 7 * wsd / std::sqrt(K), "sample-mean", "axis " << k << ": " << mean << " want " << wm);
    VF_CHECK(std::abs(sd - wsd) < 7 * wsd / std::sqrt(2.0 * K), "sample-sigma", "axis " << k << ": " << sd << " want " << wsd);
    VF_CHECK(wl <= lo[k] && hi[k] <= wh && lo[k] < wl + .06 * (wh - wl) && wh - .06 * (wh - wl) < hi[k], "sm-limits",
             "axis " << k << ": " << lo[k] << ".." << hi[k] << " want " << wl << ".." << wh);
  }
  count("components_compared"); eval();
  // the point probability
  c.p.set_property("slam/scmtch/spe/type", "wmpp"); c.p.set_property("slam/scmtch/spe/wmpp/weighting/type", "even");
  if (rng.chance(0.5)) { c.p.set_property("slam/scmtch/oope/type", "custom"); }
  double th = c.d("slam/scmtch/oope/custom/fullness_threshold", .1, .2, .9); long win = c.i("slam/scmtch/oope/custom/window_size", 1, 0, 4);
  auto spe = init_gmapping_prob_estimator(c.p);
  GmappingOccupancyObservationPE ref{th, (unsigned)win};
  UnboundedLazyTiledGridMap map{std::make_shared<GmappingBaseCell>(), {20, 20, .1}};
  for (int i = 0; i < 60; ++i) {
    C cc(rng.range(-6, 6), rng.range(-6, 6));
    map.update(cc, mk_obs(rng.chance(0.4) ? .9 : .1, 1, 1, true, {(cc.x + .5) * .1, (cc.y + .5) * .1}));
  }
  for (int i = 0; i < 10; ++i) {
    auto o = mk_obs(1, 1, 1, true, {rng.uni(-.6, .6), rng.uni(-.6, .6)});
    double a = spe->occupancy_observation_probability(o, LightWeightRectangle{o.obstacle}, map), b = ref.probability(o, LightWeightRectangle{o.obstacle}, map);
    VF_CHECK(near(a, b, 1e-12), "gmapping-oope", "window " << win << " threshold " << th << ": " << a << " want " << b);
  }
  for (auto &k : c.p.available_properties()) { VF_CHECK(c.p.asked.count(k), "unread-key", k); }
  auto pf = init_gmapping(c.p);
  for (auto &k : c.p.available_properties()) { VF_CHECK(c.p.asked.count(k), "unread-key", k); }
  count("components_compared"); distinct(Hash().add(th).add(sxy).add(hxy));
}

// ------------------------------------------------- refusal of unknown types
namespace {
void base_props(MapPropertiesProvider &p) {
  p.set_property("slam/scmtch/type", "HC"); p.set_property("slam/scmtch/spe/type", "wmpp");
  p.set_property("slam/scmtch/spe/wmpp/weighting/type", "even"); p.set_property("slam/mapping/grid/type", "plain");
  p.set_property("slam/mapping/grid/area/type", "mean_probability");
}
// exit status of building a SLAM in a child; -1: killed by a signal, 77: built
template <typename F> int in_child(F f) {
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2);
    alarm(60);
    try { f(); } catch (const std::exception &) { _exit(1); }
    _exit(77);
  }
  int st = 0; waitpid(pid, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}
} // namespace
FAMILY(unknown, 40, 400) {
  MuteLog mute;
  std::vector<std::string> keys = {"slam/scmtch/type", "slam/scmtch/spe/type", "slam/scmtch/spe/wmpp/weighting/type", "slam/scmtch/oope/type",
    "slam/scmtch/oie/type", "slam/mapping/grid/type", "slam/mapping/grid/area/type", "slam/occupancy_estimator/type",
    "slam/mapping/observation_quality_estimator/type"};
  auto k = keys[st().idx % keys.size()];
  std::vector<std::string> bad = {"", "nonsense", "hc", "Plain", "even ", "MCx", "tbm", "wmpp2", "unbounded", "obstacles"};
  auto v = bad[rng.below(bad.size())];
  MapPropertiesProvider ok; base_props(ok);
  auto p = ok; p.set_property(k, v);
  int cred = rng.below(3); // three assemblies share the components
  if (cred == 2 && k == "slam/scmtch/type") { cred = 0; }
  if (cred == 2 && (k.find("grid") != k.npos || k.find("oie") != k.npos || k.find("oope") != k.npos)) { cred = 0; }
  if (cred == 1 && k.find("area") != k.npos) { cred = 0; }
  auto run = [&](const MapPropertiesProvider &q) { return in_child([&] {
    if (cred == 0) { init_1h_slam(q); } else if (cred == 1) { init_credibilist_slam(q); } else { init_gmapping(q); } }); };
  int r0 = run(ok), r = run(p);
  VF_CHECK(r0 == 77, "refused-valid", "assembly " << cred << ": status " << r0);
  VF_CHECK(r != 77, "accepted-unknown", k << "='" << v << "' was accepted by assembly " << cred);
  VF_CHECK(0 < r, "refusal-crashes", k << "='" << v << "': status " << r);
  // a missing obligatory type is refused, too
  if (k == "slam/scmtch/type" || k == "slam/scmtch/spe/type" || k == "slam/mapping/grid/type") {
    MapPropertiesProvider q;
    for (auto &n : ok.available_properties()) { if (n != k) { q.set_property(n, ok.get_str(n, "")); } }
    if (cred == 0) { int z = run(q); VF_CHECK(z != 77 && 0 < z, "accepted-missing", k << ": status " << z); }
  }
  count("refused"); eval(); distinct(Hash().add((uint64_t)std::hash<std::string>{}(k + v)).add(cred));
}

// ------------------------------------------------------ shipped configurations
namespace {
std::string repo() { auto r = getenv("VF_REPO"); return r ? r : "/repo"; }
std::vector<std::string> ls(const std::string &d) {
  std::vector<std::string> v;
  if (auto *dp = opendir((repo() + "/config/" + d).c_str())) {
    while (auto *e = readdir(dp)) { std::string n = e->d_name; if (n.find(".properties") != n.npos) { v.push_back(d + "/" + n); } }
    closedir(dp);
  }
  std::sort(v.begin(), v.end());
  return v;
}
}
FAMILY(shipped, 24, 24) {
  MuteLog mute;
  std::vector<std::string> all;
  for (auto d : {"slams", "common", "bag_runner", "datasets"}) { for (auto &f : ls(d)) { all.push_back(f); } }
  VF_CHECK(10 <= all.size(), "no-configs", all.size());
  if (all.size() <= st().idx) { return; }
  auto f = all[st().idx];
  FilePropertiesProvider fp; fp.append_file_content(repo() + "/config/" + f);
  Logged p;
  VF_CHECK(!fp.available_properties().empty(), "empty-config", f);
  bool gm = f.find("gmapping") != f.npos, part = f.find("cell") != f.npos || f.find("common/") == 0 || f.find("datasets/") == 0;
  if (part) { base_props(p); } // a fragment to be included
  for (auto &k : fp.available_properties()) { p.set_property(k, fp.get_str(k, "")); }
  int r = in_child([&] { if (gm) { init_gmapping(p); } else { init_1h_slam(p); } });
  VF_CHECK(r == 77, "shipped-refused", f << ": status " << r);
  if (gm) { init_gmapping(p); } else { init_1h_slam(p); }
  for (auto &k : fp.available_properties()) {
    if (k.find("slam/") != 0) { continue; }
    VF_CHECK(p.asked.count(k), "shipped-unread", f << ": nobody reads " << k);
  }
  count("shipped_files"); eval(); distinct(Hash().add((uint64_t)std::hash<std::string>{}(f)));
}
VF_MAIN
