// C32: the ROS node programs publish what the SLAM configured by their parameters computes.
#include "common.h"
#include "stub.h"
// main may end without a return statement, a renamed one may not: its value is not looked at
#define VF_NODE_MAIN(n) __attribute__((no_sanitize("return"))) n
#define main VF_NODE_MAIN(node_1h)
#include "ros/single_hypoth_slam_node.cpp"
#undef main
#define main VF_NODE_MAIN(node_gm)
#include "slams/gmapping/gmapping.cpp"
#undef main
#define main VF_NODE_MAIN(node_cred)
#include "slams/credibilist/slam.cpp"
#undef main
#include "scene_common.h"
#include <unistd.h>
using namespace vf;
using Scan = sensor_msgs::LaserScan;
using Grid = nav_msgs::OccupancyGrid;
REQUIRE_EVENTS("node_1h", 100)
REQUIRE_EVENTS("node_gm", 30)
REQUIRE_EVENTS("node_cred", 50)
REQUIRE_EVENTS("poses_compared", 1200)
REQUIRE_EVENTS("grids_compared", 100)
REQUIRE_EVENTS("grids_withheld", 100)
REQUIRE_EVENTS("corrections", 2000)
REQUIRE_EVENTS("without_transform", 100)
REQUIRE_EVENTS("typed_values", 3000)
REQUIRE_EVENTS("launch_values", 5000)

namespace {
double wrap(double a) { return std::remainder(a, 2 * M_PI); }
struct P2 { double x, y, th; };
P2 mul(const P2 &a, const P2 &b) {
  return {a.x + b.x * std::cos(a.th) - b.y * std::sin(a.th), a.y + b.x * std::sin(a.th) + b.y * std::cos(a.th), a.th + b.th};
}
P2 of(const tf::Transform &t) { return {t.getOrigin().x(), t.getOrigin().y(), tf::getYaw(t.getRotation())}; }
bool close(const P2 &a, const P2 &b, double e) {
  return std::abs(a.x - b.x) < e && std::abs(a.y - b.y) < e && std::abs(wrap(a.th - b.th)) < e;
}
std::string str(const P2 &p) { std::ostringstream o; o << std::setprecision(12) << "(" << p.x << "," << p.y << "," << p.th << ")"; return o.str(); }
std::string num(double v) { std::ostringstream o; o << std::setprecision(15) << v; return o.str(); }

// kinds of values: s text, d number, i whole number, b flag
struct Val { char kind; std::string v; };
using Cfg = std::map<std::string, Val>;
void rnd_cfg(Rng &rng, Cfg &c, int node) {
  auto s = [&](const std::string &k, const std::string &v) { c[k] = {'s', v}; };
  auto d = [&](const std::string &k, double v) { c[k] = {'d', num(v)}; };
  auto i = [&](const std::string &k, int v) { c[k] = {'i', std::to_string(v)}; };
  d("slam/map/meters_per_cell", rng.pickd({0.1, 0.2, 0.25}));
  d("slam/map/width_in_meters", rng.uni(2, 6)); d("slam/map/height_in_meters", rng.uni(2, 6));
  if (rng.chance(0.7)) { d("slam/mapping/blur", rng.pickd({0, 0.3, 0.5})); }
  if (rng.chance(0.3)) { d("slam/mapping/max_range", rng.pickd({1.5, 3, 100})); }
  s("slam/mapping/grid/type", rng.chance(0.5) ? "unbounded_plain" : "unbounded_lazy_tiled");
  const char *areas[] = {"tbm_consistent", "tbm_unknown_even_occ", "affine_quality_merge", "mean_probability"};
  s("slam/mapping/grid/area/type", areas[rng.below(4)]);
  s("slam/occupancy_estimator/type", rng.chance(0.7) ? "const" : "area");
  if (rng.chance(0.5)) { d("slam/occupancy_estimator/base_occupied/qual", rng.pickd({0.3, 0.9})); d("slam/occupancy_estimator/base_empty/prob", rng.pickd({0.01, 0.2})); }
  s("slam/scmtch/spe/type", "wmpp");
  const char *ws[] = {"even", "viny", "ahr"}; s("slam/scmtch/spe/wmpp/weighting/type", ws[rng.below(3)]);
  if (rng.chance(0.6)) { i("slam/scmtch/spe/wmpp/sp_skip_rate", rng.below(5)); }
  if (rng.chance(0.3)) { d("slam/scmtch/spe/wmpp/sp_max_usable_range", rng.pickd({2.5, 4})); }
  if (rng.chance(0.5)) { d("slam/mapping/corrected_pose_quality", rng.pickd({0.9, 1})); d("slam/mapping/raw_pose_quality", rng.pickd({0.4, 0.6})); }
  if (node == 1) {
    i("slam/particles/number", rng.range(1, 4));
    if (rng.chance(0.5)) { s("slam/scmtch/oope/type", "custom"); }
    d("slam/particles/sm_delta_lim/xy/min", 0); d("slam/particles/sm_delta_lim/xy/max", 0.05);
    return;
  }
  s("slam/scmtch/oie/type", rng.chance(0.5) ? "discrepancy" : "occupancy");
  const char *oopes[] = {"obstacle", "max", "mean", "overlap"}; s("slam/scmtch/oope/type", oopes[rng.below(4)]);
  const char *sms[] = {"MC", "HC", "BF", "BF_M3RSM", "idle"}; s("slam/scmtch/type", sms[rng.below(5)]);
  i("slam/scmtch/MC/seed", rng.below(100000)); i("slam/scmtch/MC/attempts_limit", 30);
  for (auto a : {"x", "y", "t"}) {
    auto p = std::string{"slam/scmtch/BF/"} + a + "/"; d(p + "from", -0.1); d(p + "to", 0.1); d(p + "step", 0.05);
  }
  d("slam/scmtch/BF_M3RSM/accuracy/rotation", 0.05); d("slam/scmtch/BF_M3RSM/accuracy/translation", 0.1);
  d("slam/scmtch/BF_M3RSM/limits/x_translation", 0.2); d("slam/scmtch/BF_M3RSM/limits/y_translation", 0.2); d("slam/scmtch/BF_M3RSM/limits/rotation", 0.05);
}
void to_server(Rng &rng, const std::string &k, const Val &v) {
  if (v.kind != 's') { count("typed_values"); }
  bool text = v.kind == 's' || v.kind == 't' || rng.chance(0.3); // numbers and flags may also come as text
  if (text) { ros::param::set("~" + k, v.v); }
  else if (v.kind == 'd') { ros::param::set("~" + k, std::stod(v.v)); }
  else if (v.kind == 'i') { ros::param::set("~" + k, std::stoi(v.v)); }
  else { ros::param::set("~" + k, v.v == "true"); }
}
struct Reading { uint64_t t; boost::shared_ptr<Scan> m; P2 odo; bool has_tf; };
struct Event { bool corr; tf::StampedTransform t; size_t at; };
} // namespace

FAMILY(node, 640, 8000) {
  MuteLog mute;
  int node = rng.below(10); node = node < 5 ? 0 : node < 7 ? 1 : 2;
  count(node == 0 ? "node_1h" : node == 1 ? "node_gm" : "node_cred");
  ros_stub::params().clear(); ros_stub::subscribers<Scan>().clear(); ros_stub::published<Grid>().clear();
  ros_stub::ok_flag() = true;
  Cfg c; rnd_cfg(rng, c, node);
  std::string topic = "/base_scan", odom = "odom_combined", mapf = "map", robf = "robot_pose";
  bool skip = rng.chance(0.5), trig = rng.chance(0.5);
  if (rng.chance(0.5)) { topic = "/scan"; c["in/lscan2D/ros/topic/name"] = {'s', topic}; }
  if (rng.chance(0.5)) { odom = "odom"; c["in/odometry/ros/tf/odom_frame_id"] = {'s', odom}; }
  if (skip || rng.chance(0.5)) { c["in/lscan2D/skip_exceeding_vals"] = {'b', skip ? "true" : "false"}; }
  if (trig || rng.chance(0.5)) { c["slam/performance/use_trig_cache"] = {'b', trig ? "true" : "false"}; }
  // where each value comes from
  MapPropertiesProvider props;
  for (auto &e : c) { props.set_property(e.first, e.second.v); }
  std::string file;
  double from_file = node == 0 && rng.chance(0.6) ? rng.pickd({0.3, 0.7, 1}) : 0;
  if (0 < from_file) {
    char b[] = "/tmp/vf_c32_XXXXXX"; int fd = mkstemp(b); if (fd < 0) { perror("mkstemp"); exit(3); } close(fd); file = b;
    std::ofstream o{file};
    for (auto &e : c) { if (rng.chance(from_file)) { o << e.first << "=" << e.second.v << "\n"; count("file_values"); } else { to_server(rng, e.first, e.second); } }
    ros::param::set("~slam/config", file);
  } else { for (auto &e : c) { to_server(rng, e.first, e.second); } }
  if (rng.chance(0.5)) { mapf = "world"; ros::param::set("~ros/tf/map_frame_id", mapf); }
  if (rng.chance(0.5)) { robf = "base"; ros::param::set("~ros/tf/robot_pose_frame_id", robf); }
  double interval = 5;
  if (rng.chance(0.7)) { interval = rng.pickd({0, 0.5, 60}); ros::param::set("~ros/rviz/map_publishing_rate", interval); }

  // what comes in
  auto sc = Scene::room(rng, rng.uni(1.5, 3));
  uint64_t t = 1000000000ull * (100 + rng.below(2000000000)) + rng.below(1000000000);
  RobotPose p{rng.uni(-.3, .3), rng.uni(-.3, .3), rng.uni(-3, 3)};
  float rmax = rng.pickd({2.5, 10});
  int n = rng.range(8, 36); float inc = rng.chance(0.5) ? float(2 * M_PI / n) : float(deg2rad(5));
  std::vector<Reading> rs;
  for (int i = 0, ns = rng.range(1, 12); i < ns; ++i) {
    auto m = boost::make_shared<Scan>(); m->header.frame_id = "/laser"; m->header.stamp = ros::Time::from_ns(t); m->header.seq = i;
    m->angle_min = -inc * (n / 2); m->angle_increment = inc; m->angle_max = m->angle_min + inc * (n - 1); m->range_min = 0.05; m->range_max = rmax;
    for (int k = 0; k < n; ++k) { auto r = sc.cast({p.x, p.y}, p.theta + m->angle_min + k * inc); m->ranges.push_back(rng.chance(0.05) ? NAN : rng.chance(0.05) ? 0 : r); }
    rs.push_back({t, m, {p.x, p.y, p.theta}, !rng.chance(0.15)});
    t += 1000000 + rng.below(rng.chance(0.3) ? 8000000000 : 700000000);
    if (rng.chance(0.2)) { continue; }
    p = RobotPose{p.x + rng.uni(-.15, .15), p.y + rng.uni(-.15, .15), p.theta + rng.uni(-.1, .1)};
  }

  // by hand: message -> scan -> SLAM
  struct Want { bool pose = false, map = false; RobotPose p; std::vector<int> grid; int w = 0, h = 0; DiscretePoint2D o; double s = 1; };
  std::vector<Want> want; bool sensitive = false;
  auto by_hand = [&](double jitter) {
    struct O : WorldPoseObserver, WorldMapObserver<GridMap> {
      Want *w = nullptr;
      void on_pose_update(const RobotPose &q) override { w->pose = true; w->p = q; }
      void on_map_update(const GridMap &m) override {
        w->map = true; w->w = m.width(); w->h = m.height(); w->o = m.origin(); w->s = m.scale();
        for (int y = 0; y < w->h; ++y) for (int x = 0; x < w->w; ++x) {
          double v = m[m.internal2external({x, y})]; w->grid.push_back(v == -1 ? -1 : int(v * 100));
        }
      }
    };
    auto slam = node == 0 ? init_1h_slam(props) : init_credibilist_slam(props);
    auto o = std::make_shared<O>();
    slam->subscribe_pose(o); slam->subscribe_map(o);
    std::vector<Want> res(rs.size());
    RobotPose prev{0, 0, 0};
    for (size_t i = 0; i < rs.size(); ++i) {
      auto &e = rs[i]; if (!e.has_tf) { continue; }
      o->w = &res[i];
      TransformedLaserScan s; s.quality = 1;
      if (trig) { auto tp = std::make_shared<CachedTrigonometryProvider>(); tp->update(e.m->angle_min, e.m->angle_max, e.m->angle_increment); s.scan.trig_provider = tp; }
      double a = e.m->angle_min;
      for (float r : e.m->ranges) {
        double th = a; a += e.m->angle_increment;
        if (!(e.m->range_min <= r)) { continue; }
        if (r < e.m->range_max) { s.scan.points().emplace_back(r, th, true); }
        else if (!skip) { s.scan.points().emplace_back(e.m->range_max, th, false); }
      }
      RobotPose now{e.odo.x + jitter, e.odo.y - jitter, wrap(e.odo.th) + jitter};
      s.pose_delta = now - prev; prev = now;
      slam->handle_sensor_data(s);
    }
    return res;
  };
  auto what = std::string{node == 0 ? "1h node " : node == 1 ? "gmapping node " : "credibilist node "} + (c.count("slam/scmtch/type") ? c["slam/scmtch/type"].v : "")
    + " " + c["slam/mapping/grid/area/type"].v + " " + std::to_string(rs.size()) + " scans, " + num(from_file) + " of the values from a file, interval " + num(interval);
  if (node != 1) {
    want = by_hand(0);
    // rounding may tip a balanced decision: such runs can't be compared
    for (double j : {1e-12, -1e-12}) {
      auto o = by_hand(j);
      for (size_t i = 0; i < want.size(); ++i) { sensitive |= !same_pose(want[i].p, o[i].p, 1e-6) || want[i].grid != o[i].grid; }
    }
    if (sensitive) { count("sensitive_runs"); }
  }

  // the node
  std::vector<Event> got; std::vector<size_t> grids_at;
  size_t at = 0; uint64_t last_grid = 0;
  ros_stub::tf_sent() = [&](const tf::StampedTransform &s) { got.push_back({s.child_frame_id_ == odom && s.frame_id_ == mapf, s, at}); };
  ros_stub::tf_lookup() = [&](const std::string &tgt, const std::string &src, const ros::Time &time, tf::StampedTransform &out) {
    auto &e = rs[at];
    VF_CHECK(tgt == odom && src == "/laser" && time.toNSec() == e.t, "lookup", what << ": asks for " << src << " in " << tgt << " at " << time.toNSec());
    if (!e.has_tf) { throw tf::LookupException{"no transform"}; }
    out = tf::StampedTransform{tf::Transform{tf::createQuaternionFromRPY(0, 0, e.odo.th), tf::Vector3{e.odo.x, e.odo.y, 0}}, time, tgt, src};
  };
  bool spun = false;
  ros_stub::on_spin() = [&]() {
    spun = true;
    for (at = 0; at < rs.size(); ++at) {
      auto &e = rs[at];
      got.clear();
      auto &grids = ros_stub::published<Grid>()["map"]; grids.clear();
      ros_stub::clock_ns() = e.t + 1000; // handled a bit later
      auto copy = boost::make_shared<Scan>(*e.m);
      ros_stub::deliver<Scan>(rng.chance(0.05) ? "/unrelated" : topic, copy);
      if (ros_stub::subscribers<Scan>()[topic].empty()) { VF_CHECK(false, "not-listening", what << ": nobody listens to " << topic); }
      if (ros_stub::subscribers<Scan>().count("/unrelated") && got.empty() && grids.empty() && e.has_tf && ros_stub::subscribers<Scan>()["/unrelated"].empty()) {
        ros_stub::subscribers<Scan>().erase("/unrelated"); ros_stub::deliver<Scan>(topic, copy);
      }
      std::ostringstream w; w << what << ", scan " << at;
      eval();
      if (!e.has_tf) {
        VF_CHECK(got.empty() && grids.empty(), "published-without-transform", w.str() << ": " << got.size() << " frames, " << grids.size() << " maps");
        count("without_transform"); continue;
      }
      std::vector<const Event *> corr, rob;
      for (auto &g : got) {
        bool r = g.t.child_frame_id_ == robf && g.t.frame_id_ == mapf;
        VF_CHECK(g.corr || r, "frames", w.str() << ": " << g.t.frame_id_ << " -> " << g.t.child_frame_id_);
        (g.corr ? corr : rob).push_back(&g);
      }
      VF_CHECK(corr.size() == rob.size(), "number", w.str() << ": " << corr.size() << " corrections and " << rob.size() << " poses");
      for (size_t k = 0; k < corr.size(); ++k) {
        auto pose = of(rob[k]->t);
        VF_CHECK(close(mul(of(corr[k]->t), e.odo), pose, 1e-6), "correction", w.str() << ": correction " << str(of(corr[k]->t)) << " of odometry " << str(e.odo) << " isn't the pose " << str(pose));
        VF_CHECK(std::isfinite(pose.x + pose.y + pose.th), "not-finite", w.str());
        // when: a reader looking the robot up at the scan's time has to find it there
        for (auto g : {corr[k], rob[k]}) {
          uint64_t s = g->t.stamp_.toNSec();
          VF_CHECK(e.t <= s && s <= e.t + 1000, "stamp", w.str() << ": stamped " << s << ", the scan is of " << e.t);
        }
        count("corrections"); distinct(Hash{}.add(pose.x).add(pose.y).add(pose.th).h);
      }
      bool due = uint64_t(std::llround(interval * 1e9)) <= e.t + 1000 - last_grid;
      if (node == 1) {
        VF_CHECK(grids.size() <= 1 && (grids.empty() || due), "grid-rate", w.str() << ": " << grids.size() << " maps, due " << due);
        if (!grids.empty()) { last_grid = e.t + 1000; }
        continue;
      }
      auto &x = want[at];
      VF_CHECK(corr.size() == (x.pose ? 1 : 0), "pose-number", w.str() << ": " << corr.size() << " poses");
      if (x.pose && !sensitive) {
        auto pose = of(rob[0]->t);
        VF_CHECK(close(pose, {x.p.x, x.p.y, x.p.theta}, 1e-6), "pose", w.str() << ": published " << str(pose) << ", the SLAM computes " << ps(x.p));
        count("poses_compared");
      }
      VF_CHECK(grids.size() == (x.map && due ? 1 : 0), "grid-number", w.str() << ": " << grids.size() << " maps, due " << due);
      if (grids.empty()) { count("grids_withheld"); continue; }
      last_grid = e.t + 1000;
      auto &g = grids[0];
      VF_CHECK(g.header.frame_id == mapf, "grid-frame", w.str() << ": " << g.header.frame_id);
      if (sensitive) { continue; }
      VF_CHECK((int)g.info.width == x.w && (int)g.info.height == x.h && near(g.info.resolution, x.s, 1e-6) && near(g.info.origin.position.x, -x.s * x.o.x, 1e-4)
               && near(g.info.origin.position.y, -x.s * x.o.y, 1e-4), "grid-geometry", w.str() << ": " << g.info.width << "x" << g.info.height);
      VF_CHECK(g.data.size() == x.grid.size(), "grid-size", w.str());
      size_t diff = 0;
      for (size_t k = 0; k < g.data.size(); ++k) { diff += (g.data[k] == -1) != (x.grid[k] == -1) || 1 < std::abs(g.data[k] - x.grid[k]); }
      VF_CHECK(diff == 0, "grid", w.str() << ": " << diff << " of " << g.data.size() << " cells differ from the SLAM's map");
      count("grids_compared");
    }
  };
  char a0[] = "node"; char *av[] = {a0, nullptr};
  if (node == 0) { node_1h(1, av); } else if (node == 1) { node_gm(1, av); } else { node_cred(1, av); }
  VF_CHECK(spun, "exit", what << ": ended without handling messages");
  ros_stub::on_spin() = nullptr; ros_stub::tf_sent() = nullptr; ros_stub::tf_lookup() = nullptr;
  if (!file.empty()) { ::unlink(file.c_str()); }
  if (rng.chance(0.02)) { sample(what); }
}

// the parameter server as a source of configuration values
// what has no visible effect of its own
FAMILY(quiet_settings, 200, 5000) {
  ros_stub::params().clear();
  MapPropertiesProvider f; LaunchPropertiesProvider l;
  int k = rng.below(4); // unset, false, true, or something else is set
  const char *key = "slam/performance/use_trig_cache";
  if (k == 1 || k == 2) {
    auto v = k == 1 ? rng.pick(std::vector<std::string>{"false", "0"}) : rng.pick(std::vector<std::string>{"true", "1"});
    f.set_property(key, v); to_server(rng, key, {'t', v});
  } else if (k == 3) { f.set_property("in/lscan2D/skip_exceeding_vals", "true"); to_server(rng, "in/lscan2D/skip_exceeding_vals", {'b', "true"}); }
  VF_CHECK(get_use_trig_cache(f) == (k == 2) && get_use_trig_cache(l) == (k == 2), "trig-cache", "case " << k);
  VF_CHECK(get_skip_exceeding_lsr(f) == (k == 3) && get_skip_exceeding_lsr(l) == (k == 3), "skip-exceeding", "case " << k);
  double tf_s = 0, rate = 0; int flt = 0, sub = 0;
  std::map<std::string, int> set;
  for (auto n : {"ros/tf/buffer_duration", "ros/rviz/map_publishing_rate", "ros/filter_queue_size", "ros/subscribers_queue_size"}) {
    if (rng.chance(0.5)) { set[n] = rng.range(1, 5000); if (n[4] == 'f' || n[4] == 's') { ros::param::set(std::string{"~"} + n, set[n]); } else { ros::param::set(std::string{"~"} + n, (double)set[n]); } }
  }
  init_constants_for_ros(tf_s, rate, flt, sub);
  auto want = [&](const char *n, double d) { return set.count(n) ? set[n] : d; };
  VF_CHECK(tf_s == want("ros/tf/buffer_duration", 5) && rate == want("ros/rviz/map_publishing_rate", 5) && flt == want("ros/filter_queue_size", 1000) &&
           sub == want("ros/subscribers_queue_size", 1000), "constants", tf_s << " " << rate << " " << flt << " " << sub);
  eval(); distinct(Hash().add(k).add(tf_s).add(rate).add(flt).add(sub)); count("settings_read", 6);
}

FAMILY(launch, 400, 20000) {
  ros_stub::params().clear();
  LaunchPropertiesProvider pp;
  std::map<std::string, Val> m;
  for (int i = rng.range(1, 30); i; --i) {
    std::string k = "k" + std::to_string(rng.below(12));
    if (rng.chance(0.3)) { k = "a/" + k; }
    Val v;
    switch (rng.below(5)) {
    case 4: v = {'t', rng.pick(std::vector<std::string>{"0", "1", "yes", "true", "false"})}; break; // a flag as text
    case 0: v = {'s', rng.pick(std::vector<std::string>{"", "x", "a b", "<file>", "unset", "tbm", "/base_scan"})}; break;
    case 1: v = {'d', num(rng.chance(0.3) ? rng.pickd({0, -0.5, 1e-9, 1e12}) : rng.uni(-100, 100))}; break;
    case 2: v = {'i', std::to_string(rng.chance(0.2) ? rng.pick(std::vector<int>{0, -1, 2147483647, -2147483647}) : rng.range(-1000, 1000))}; break;
    default: v = {'b', rng.chance(0.5) ? "true" : "false"};
    }
    if (rng.chance(0.3)) { pp.set_property(k, v.v); if (v.kind != 's') { count("typed_values"); } } else { to_server(rng, k, v); }
    m[k] = v;
  }
  for (int i = 0; i < 12; ++i) for (auto pre : {"", "a/"}) {
    std::string k = pre + ("k" + std::to_string(i));
    auto it = m.find(k);
    if (it == m.end()) {
      int di = rng.range(-50, 50); double dd = rng.uni(-5, 5); bool db = rng.chance(0.5);
      VF_CHECK(pp.get_int(k, di) == di && pp.get_dbl(k, dd) == dd && pp.get_str(k, "dflt") == "dflt" && pp.get_bool(k, db) == db && pp.get_uint(k, 7) == 7, "default", k);
    } else {
      auto &v = it->second;
      switch (v.kind) {
      case 's': VF_CHECK(pp.get_str(k, "dflt") == v.v, "text", k << " = " << v.v << ": " << pp.get_str(k, "dflt")); break;
      case 't': { // means what it means in a file
        MapPropertiesProvider f; f.set_property(k, v.v); bool dflt = rng.chance(0.5);
        VF_CHECK(pp.get_bool(k, dflt) == f.get_bool(k, dflt), "flag-text", k << " = " << v.v);
        break;
      }
      case 'd': VF_CHECK(pp.get_dbl(k, 77.5) == std::stod(v.v), "number", k << " = " << v.v << ": " << pp.get_dbl(k, 77.5)); break;
      case 'i': {
        int w = std::stoi(v.v);
        VF_CHECK(pp.get_int(k, 77) == w && pp.get_dbl(k, 77) == w, "whole", k << " = " << v.v << ": " << pp.get_int(k, 77) << " " << pp.get_dbl(k, 77));
        if (0 <= w) { VF_CHECK(pp.get_uint(k, 77) == (unsigned)w, "unsigned", k << " = " << v.v << ": " << pp.get_uint(k, 77)); }
        break;
      }
      default: VF_CHECK(pp.get_bool(k, rng.chance(0.5)) == (v.v == "true"), "flag", k << " = " << v.v);
      }
    }
    count("launch_values"); distinct(std::hash<std::string>{}(k + (it == m.end() ? "" : it->second.v)));
  }
  eval();
}
VF_MAIN
