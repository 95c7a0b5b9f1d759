// C16: a SLAM step moves, corrects and maps consistently, and tells everyone once.
#include "scene_common.h"
#include "utils/init_slam.h"
#include "slams/credibilist/init_slam.h"
using namespace vf;
REQUIRE_EVENTS("steps", 15000)
REQUIRE_EVENTS("corrected", 4000)
REQUIRE_EVENTS("uncorrected", 4000)
REQUIRE_EVENTS("pose_notifications", 20000)
REQUIRE_EVENTS("map_notifications", 20000)
REQUIRE_EVENTS("expired_observers", 1000)
REQUIRE_EVENTS("removed_observers", 500)
REQUIRE_EVENTS("replayed_steps", 150)
REQUIRE_EVENTS("real_steps", 300)

namespace {
struct LEv { char kind; int id; RobotPose pose; const void *obj; double q, margin; std::vector<SPt> pts; uint64_t dig; };
struct Log { std::vector<LEv> ev; bool digested = false; };

struct ScriptSM : GridScanMatcher {
  Log *log; RobotPoseDelta next; double prob = 0.5;
  ScriptSM(Log *l) : GridScanMatcher{nullptr}, log{l} {}
  double process_scan(const TransformedLaserScan &s, const RobotPose &p, const GridMap &m, RobotPoseDelta &d) override {
    log->ev.push_back({'m', 0, p, &m, 0, 0, snap(s.scan), 0});
    do_for_each_observer([&](ObsPtr o) { o->on_matching_start(p, s, m); });
    d = next; return prob;
  }
};
struct RecAdder : GridMapScanAdder {
  Log *log;
  RecAdder(Log *l, std::shared_ptr<CellOccupancyEstimator> e, std::shared_ptr<ObservationMappingQualityEstimator> q)
    : GridMapScanAdder{e, q}, log{l} {}
  mutable std::vector<Segment2D> beams; mutable std::vector<double> q; mutable std::vector<bool> occ; mutable const void *map = nullptr;
  void handle_scan_point(GridMap &m, bool o, double sq, const Segment2D &b) const override {
    map = &m; beams.push_back(b); q.push_back(sq); occ.push_back(o);
    if (log->ev.empty() || log->ev.back().kind != 'a') { log->ev.push_back({'a', 0, {}, &m, 0, 0, {}, 0}); }
    m.update(m.world_to_cell(b.end()), mk_obs(o, 1, sq, o, b.end()));
  }
};
struct PObs : WorldPoseObserver {
  Log *log; int id; std::function<void()> then;
  PObs(Log *l, int i) : log{l}, id{i} {}
  void on_pose_update(const RobotPose &p) override {
    log->ev.push_back({'p', id, p, nullptr, 0, 0, {}, 0});
    if (then) { then(); }
  }
};
struct MObs : WorldMapObserver<GridMap> {
  Log *log; int id; std::function<void()> then;
  MObs(Log *l, int i) : log{l}, id{i} {}
  void on_map_update(const GridMap &m) override {
    log->ev.push_back({'M', id, {}, &m, 0, 0, {}, log->digested ? 0 : map_digest(m)}); log->digested = true;
    if (then) { then(); }
  }
};
struct SObs : GridScanMatcherObserver {
  Log *log; int id;
  SObs(Log *l, int i) : log{l}, id{i} {}
  void on_matching_start(const RobotPose &p, const TransformedLaserScan &, const GridMap &m) override { log->ev.push_back({'s', id, p, &m, 0, 0, {}, 0}); }
};
RobotPoseDelta rnd_delta(Rng &rng) {
  switch (rng.below(7)) {
  case 0: return {};
  case 1: return {rng.uni(-1, 1), 0, 0};
  case 2: return {0, rng.uni(-1, 1), 0};
  case 3: return {0, 0, rng.uni(-1, 1)};
  case 4: return {rng.pickd({-.25, .5, .125}), rng.pickd({-.25, .5, .125}), rng.pickd({-.5, .25})};
  default: return {rng.uni(-1, 1), rng.uni(-1, 1), rng.uni(-4, 4)};
  }
}
LaserScan2D rnd_scan(Rng &rng) {
  LaserScan2D s;
  for (int i = 0, n = rng.chance(0.1) ? rng.below(4) : rng.chance(0.005) ? rng.range(257, 700) : rng.range(3, 12); i < n; ++i) {
    s.points().push_back(rng.chance(0.8) ? ScanPoint2D::make_polar(rng.uni(0.1, 4), rng.uni(-3, 3), rng.chance(0.8))
                                         : ScanPoint2D::make_cartesian({rng.uni(-3, 3), rng.uni(-3, 3)}, rng.chance(0.8)));
  }
  return s;
}
} // namespace

FAMILY(step, 2000, 60000) {
  Log log;
  SingleStateHypothesisLSGWProperties pr;
  pr.localized_scan_quality = rng.pickd({1, 0.9, 0.3}); pr.raw_scan_quality = rng.pickd({0.5, 0.6, 0.05});
  pr.scan_margin = rng.below(4);
  pr.grid_map = std::shared_ptr<GridMap>(make_map(2 + rng.below(2), std::make_shared<HistCell>(), {10, 10, rng.pickd({0.5, 1})}));
  auto sm = std::make_shared<ScriptSM>(&log);
  pr.gsm = sm;
  auto adder = std::make_shared<RecAdder>(&log, std::make_shared<ConstOccupancyEstimator>(Occupancy{.95, 1}, Occupancy{.01, 1}), std::make_shared<IdleOMQE>());
  pr.gmsa = adder;
  SingleStateHypothesisLaserScanGridWorld w{pr};
  std::vector<std::shared_ptr<PObs>> po; std::vector<std::shared_ptr<MObs>> mo; // null = expired
  std::vector<std::shared_ptr<SObs>> so; // of the scan matcher
  RobotPose exp;
  int ids = 0;
  bool lengthy = rng.chance(0.01); if (lengthy) { count("long_histories"); }
  for (int st = 0, n = lengthy ? rng.range(260, 320) : rng.range(4, 16); st < n; ++st) {
    bool crowd = 60 < po.size() + mo.size();
    // the observer population changes
    for (int i = crowd ? 0 : rng.below(3); i; --i) {
      if (rng.chance(0.5)) { po.push_back(std::make_shared<PObs>(&log, ids++)); w.subscribe_pose(po.back()); }
      else { mo.push_back(std::make_shared<MObs>(&log, ids++)); w.subscribe_map(mo.back()); }
    }
    if (po.size() && rng.chance(0.2)) { po[rng.below(po.size())].reset(); count("expired_observers"); }
    if (mo.size() && rng.chance(0.2)) { mo[rng.below(mo.size())].reset(); count("expired_observers"); }
    if (rng.chance(0.3) && so.size() < 30) { so.push_back(std::make_shared<SObs>(&log, ids++)); w.add_sm_observer(so.back()); }
    if (so.size() && rng.chance(0.2)) { auto i = rng.below(so.size()); w.remove_sm_observer(so[i]); so.erase(so.begin() + i); count("removed_observers"); }
    if (so.size() && rng.chance(0.1)) { so.erase(so.begin() + rng.below(so.size())); }
    // an observer that drops another one while being told
    size_t from = 99, drop = 99; bool map_side = rng.chance(0.5);
    for (auto &o : po) { if (o) { o->then = nullptr; } }
    for (auto &o : mo) { if (o) { o->then = nullptr; } }
    if (rng.chance(0.3)) {
      size_t cnt = map_side ? mo.size() : po.size();
      if (2 <= cnt) {
        from = rng.below(cnt); drop = rng.below(cnt);
        if (map_side ? (bool)mo[from] : (bool)po[from]) {
          if (map_side) { mo[from]->then = [&mo, drop] { mo[drop].reset(); }; } else { po[from]->then = [&po, drop] { po[drop].reset(); }; }
          if (from == drop) { from = 99; (map_side ? mo[drop]->then : po[drop]->then) = nullptr; }
        } else { from = 99; }
      }
    }
    std::vector<int> epo, emo; // expected ids
    for (size_t i = 0; i < po.size(); ++i) { if (po[i] && !(from != 99 && !map_side && i == drop && from < drop)) { epo.push_back(po[i]->id); } }
    for (size_t i = 0; i < mo.size(); ++i) { if (mo[i] && !(from != 99 && map_side && i == drop && from < drop)) { emo.push_back(mo[i]->id); } }

    TransformedLaserScan ts; ts.scan = rnd_scan(rng); ts.pose_delta = rnd_delta(rng); ts.quality = rng.chance(0.3) ? rng.pickd({0, 1}) : rng.unit();
    sm->next = rng.chance(0.4) ? RobotPoseDelta{} : rnd_delta(rng);
    sm->prob = rng.chance(0.1) ? std::nan("") : rng.unit();
    auto pts = snap(ts.scan);
    bool corr = sm->next.x != 0 || sm->next.y != 0 || sm->next.theta != 0;
    count(corr ? "corrected" : "uncorrected");
    RobotPose moved{exp.x + ts.pose_delta.x, exp.y + ts.pose_delta.y, exp.theta + ts.pose_delta.theta};
    RobotPose fin{moved.x + sm->next.x, moved.y + sm->next.y, moved.theta + sm->next.theta};
    log.ev.clear(); log.digested = false; adder->beams.clear(); adder->q.clear(); adder->occ.clear(); adder->map = nullptr;
    auto before = ts.pose_delta;
    w.handle_sensor_data(ts);
    exp = fin;
    std::ostringstream os; os << "step " << st << " odometry " << before << " correction " << sm->next;
    auto what = os.str();
    VF_CHECK(same_pose(w.pose(), fin, 1e-12), "pose", what << ": pose " << ps(w.pose()) << " want " << ps(fin));
    VF_CHECK(same_pose(w.world().pose(), fin, 1e-12) && &w.world().map() == &w.map() && &w.map() == pr.grid_map.get(), "access", what);
    size_t k = 0;
    VF_CHECK(k < log.ev.size() && log.ev[k].kind == 'm', "no-matching", what);
    VF_CHECK(same_pose(log.ev[k].pose, moved, 1e-12), "matched-at", what << ": matched at " << ps(log.ev[k].pose));
    VF_CHECK(eq(log.ev[k].pts, pts) && log.ev[k].obj == pr.grid_map.get(), "matched-what", what);
    ++k;
    for (auto &o : so) {
      VF_CHECK(k < log.ev.size() && log.ev[k].kind == 's' && log.ev[k].id == o->id && same_pose(log.ev[k].pose, moved, 1e-12), "matcher-observer", what << ": want observer " << o->id);
      ++k;
    }
    // the integrated beams
    size_t mg = pr.scan_margin;
    std::vector<SPt> used;
    for (size_t i = mg; i + mg < pts.size(); ++i) { used.push_back(pts[i]); }
    VF_CHECK(adder->beams.size() == used.size(), "integrated-times", what << ": " << adder->beams.size() << " beams, want " << used.size());
    if (used.size()) {
      VF_CHECK(k < log.ev.size() && log.ev[k].kind == 'a' && log.ev[k].obj == pr.grid_map.get(), "integration-order", what);
      ++k; count("integrations");
    }
    double q = corr ? pr.localized_scan_quality : pr.raw_scan_quality;
    for (size_t i = 0; i < used.size(); ++i) {
      auto &b = adder->beams[i];
      double a = used[i].a + fin.theta;
      VF_CHECK(near(b.beg().x, fin.x) && near(b.beg().y, fin.y) && near(b.end().x, fin.x + used[i].r * std::cos(a)) &&
               near(b.end().y, fin.y + used[i].r * std::sin(a)) && adder->occ[i] == used[i].o,
               "integrated-at", what << ": beam " << i << " from " << b.beg() << " to " << b.end());
      VF_CHECK(near(adder->q[i], q), "integrated-quality", what << ": quality " << adder->q[i] << " want " << q);
    }
    VF_CHECK(near(ts.quality, q), "scan-quality", what << ": " << ts.quality);
    auto dig = emo.empty() ? 0 : map_digest(w.map());
    for (int id : epo) {
      VF_CHECK(k < log.ev.size() && log.ev[k].kind == 'p' && log.ev[k].id == id, "pose-notification", what << ": want observer " << id);
      VF_CHECK(same_pose(log.ev[k].pose, fin, 1e-12), "pose-notified", what << ": told " << ps(log.ev[k].pose));
      ++k; count("pose_notifications");
    }
    for (int id : emo) {
      VF_CHECK(k < log.ev.size() && log.ev[k].kind == 'M' && log.ev[k].id == id, "map-notification", what << ": want observer " << id);
      VF_CHECK(log.ev[k].obj == pr.grid_map.get() && log.ev[k].dig == dig, "map-notified", what);
      dig = 0; // the first one digests the map
      ++k; count("map_notifications");
    }
    VF_CHECK(k == log.ev.size(), "extra-events", what << ": " << log.ev.size() - k << " more, first " << log.ev[k].kind);
    VF_CHECK(eq(snap(ts.scan), pts) && ts.pose_delta == before, "scan-changed", what);
    count("steps"); eval();
    distinct(Hash().add(fin.x).add(fin.y).add(fin.theta).add(q).add((unsigned)epo.size()).add((unsigned)emo.size()));
  }
}

namespace {
struct MapProps : MapPropertiesProvider {
  struct V { MapPropertiesProvider *p; std::string k;
             V &operator=(const std::string &x) { p->set_property(k, x); return *this; }
             V &operator=(const V &o) { p->set_property(k, (std::string)o); return *this; }
             operator std::string() const { return p->get_str(k, ""); } };
  struct M { MapProps *o; V operator[](const std::string &k) const { return {o, k}; } };
  M v{this};
  MapProps() {}
  MapProps(const MapProps &o) : MapPropertiesProvider(o), v{this} {}
};
MapProps rnd_props(Rng &rng) {
  MapProps p;
  auto pick = [&](const std::string &k, std::vector<std::string> vs) { p.v[k] = vs[rng.below(vs.size())]; };
  pick("slam/mapping/grid/type", {"unbounded_plain", "unbounded_lazy_tiled", "plain", "lazy_tiled"});
  pick("slam/mapping/grid/area/type", {"tbm_consistent", "tbm_unknown_even_occ", "affine_quality_merge", "mean_probability"});
  pick("slam/scmtch/type", {"MC", "HC", "BF", "BF_M3RSM", "idle", "HC_FIXED"});
  pick("slam/scmtch/oope/type", {"obstacle", "max", "mean", "overlap"});
  pick("slam/scmtch/oie/type", {"discrepancy", "occupancy"});
  pick("slam/occupancy_estimator/type", {"const", "area"});
  pick("slam/scmtch/spe/wmpp/weighting/type", {"even", "viny", "ahr"});
  p.v["slam/scmtch/spe/type"] = "wmpp";
  p.v["slam/map/height_in_meters"] = p.v["slam/map/width_in_meters"] = "24"; // fits the room
  p.v["slam/map/meters_per_cell"] = rng.chance(0.5) ? "0.1" : "0.25";
  p.v["slam/scmtch/MC/seed"] = std::to_string(rng.below(1000));
  p.v["slam/scmtch/MC/attempts_limit"] = "40";
  p.v["slam/mapping/blur"] = rng.chance(0.5) ? "0.3" : "0";
  p.v["slam/scmtch/BF/t/step"] = "0.04"; p.v["slam/scmtch/BF/x/step"] = "0.25"; p.v["slam/scmtch/BF/y/step"] = "0.25";
  p.v["slam/scmtch/BF_M3RSM/limits/x_translation"] = p.v["slam/scmtch/BF_M3RSM/limits/y_translation"] = "0.3";
  p.v["slam/scmtch/BF_M3RSM/accuracy/rotation"] = "0.05"; p.v["slam/scmtch/BF_M3RSM/accuracy/translation"] = "0.1";
  return p;
}
struct LastObs : GridScanMatcherObserver {
  RobotPose start; int starts = 0;
  void on_matching_start(const RobotPose &p, const TransformedLaserScan &, const GridMap &) override { start = p; ++starts; }
};
struct LastPose : WorldPoseObserver { RobotPose p; int n = 0; void on_pose_update(const RobotPose &q) override { p = q; ++n; } };
} // namespace

// whole, configured SLAMs: replaying gives the same result; and the parts, driven
// by hand in the documented order, give what the SLAM gives
FAMILY(replay, 64, 1500) {
  MuteLog mute;
  auto props = rnd_props(rng);
  bool cred = rng.chance(0.2);
  auto mk = [&] { return cred ? init_credibilist_slam(props) : init_1h_slam(props); };
  auto scene = Scene::room(rng, 5);
  auto a = mk(), b = mk();
  // by hand
  auto map = cred ? init_grid_map(props, std::make_shared<CredibilistCell>()) : init_grid_map(props);
  auto sm = init_scan_matcher(props);
  auto adder = init_scan_adder(props);
  RobotPose hp;
  auto lp = std::make_shared<LastPose>(); a->subscribe_pose(lp);
  RobotPose truth{rng.uni(-.5, .5), rng.uni(-.5, .5), rng.uni(-3, 3)};
  for (int i = 0, n = rng.range(2, 6); i < n; ++i) {
    RobotPoseDelta d = i ? RobotPoseDelta{rng.uni(-.2, .2), rng.uni(-.2, .2), rng.uni(-.1, .1)} : RobotPoseDelta{};
    truth += d;
    TransformedLaserScan ts; ts.scan = scene.scan(truth, rng.range(20, 60), 8);
    ts.pose_delta = {d.x + rng.gauss() * .02, d.y + rng.gauss() * .02, d.theta + rng.gauss() * .01}; ts.quality = 1;
    if (rng.chance(0.05)) { ts.scan.points().clear(); }
    auto t2 = ts; t2.scan.trig_provider = std::make_shared<RawTrigonometryProvider>();
    auto t3 = ts; t3.scan.trig_provider = std::make_shared<RawTrigonometryProvider>();
    a->handle_sensor_data(ts); b->handle_sensor_data(t2);
    std::string what = props.get_str("slam/scmtch/type", "") + " " + props.get_str("slam/mapping/grid/type", "") + " step " + std::to_string(i);
    VF_CHECK(a->pose().x == b->pose().x && a->pose().y == b->pose().y && a->pose().theta == b->pose().theta, "replay-pose",
             what << ": " << ps(a->pose()) << " vs " << ps(b->pose()));
    VF_CHECK(map_digest(a->map()) == map_digest(b->map()), "replay-map", what);
    VF_CHECK(lp->n == i + 1 && same_pose(lp->p, a->pose(), 0), "replay-notified", what);
    hp += t3.pose_delta;
    RobotPoseDelta c;
    sm->reset_state();
    sm->process_scan(t3, hp, *map, c);
    hp += c;
    double q = c ? (cred ? 0.9 : 1.0) : (cred ? 0.6 : 0.5);
    adder->append_scan(*map, hp, t3.scan, q, 0);
    VF_CHECK(same_pose(hp, a->pose(), 1e-12), "by-hand-pose", what << ": SLAM " << ps(a->pose()) << " by hand " << ps(hp));
    VF_CHECK(map_digest(*map) == map_digest(a->map()), "by-hand-map", what);
    count("replayed_steps"); eval();
    distinct(Hash().add(hp.x).add(hp.y).add(hp.theta));
  }
  count("real_steps", 10);
}
VF_MAIN
