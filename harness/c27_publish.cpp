// C27: published occupancy grids, dumped trajectories and robot frames against the state they were made from.
#include "common.h"
#include "stub.h"
#include "ros/init_utils.h"
#include "ros/utils.h"
#define main path_main
#include "ros/path_publisher.cpp"
#undef main
#define main adapter_main
#include "ros/wg_pr2_bag_adapter.cpp"
#undef main
#include "scene_common.h"
using namespace vf;
using Scan = sensor_msgs::LaserScan;

REQUIRE_EVENTS("overwritten_trajectories", 100)
REQUIRE_EVENTS("grids_published", 2000)
REQUIRE_EVENTS("cells_compared", 500000)
REQUIRE_EVENTS("suppressed_updates", 1000)
REQUIRE_EVENTS("grown_maps", 500)
REQUIRE_EVENTS("trajectory_entries", 5000)
REQUIRE_EVENTS("small_nanoseconds", 500)
REQUIRE_EVENTS("frames", 5000)

namespace {
double wrap(double a) { return std::remainder(a, 2 * M_PI); }
uint64_t rnd_time(Rng &rng) {
  uint64_t s = rng.chance(0.3) ? rng.range(10, 1000) : rng.chance(0.2) ? 2000000000ull + rng.below(100000000) : 1400000000ull + rng.below(300000000);
  uint64_t ns = rng.chance(0.2) ? rng.below(10) : rng.chance(0.3) ? rng.below(100000000) : rng.chance(0.1) ? 999999999 : rng.below(1000000000);
  return s * 1000000000ull + ns;
}
void set_now(uint64_t ns) { ros_stub::clock_ns() = ns; }
RobotPose rnd_pose(Rng &rng) {
  double s = rng.chance(0.1) ? 1000 : rng.pickd({0.01, 1, 30});
  double th = rng.chance(0.1) ? rng.pickd({0, M_PI, -M_PI, M_PI / 2, 4 * M_PI}) : rng.uni(-10, 10);
  return RobotPose{rng.chance(0.05) ? 0 : rng.uni(-s, s), rng.chance(0.05) ? 0 : rng.uni(-s, s), th};
}
template <typename MapT> struct Obs : WorldObservable<MapT> {
  void pose(const RobotPose &p) { this->notify_with_pose(p); }
  void map(const MapT &m) { this->notify_with_map(m); }
};
std::string tmp_name() { return "c27_" + std::to_string(getpid()) + ".txt"; }
} // namespace

FAMILY(grid, 1500, 40000) {
  ros_stub::published<nav_msgs::OccupancyGrid>().clear();
  ros_stub::params().clear();
  int kind = rng.below(4), ck = rng.below(kCellsN);
  auto proto = make_cell(ck);
  double s = rng.chance(0.2) ? rng.uni(0.01, 2) : rng.pickd({0.05, 0.1, 0.25, 1});
  auto m = make_map(kind, proto, {(int)rng.range(1, rng.chance(0.05) ? 300 : 30), (int)rng.range(1, rng.chance(0.05) ? 300 : 30), s});
  std::string frame = "map";
  if (rng.chance(0.5)) { frame = "world"; ros::param::set("~ros/tf/map_frame_id", frame); }
  double interval = rng.pickd({0, 0.001, 0.5, 5, 3600});
  Obs<GridMap> slam;
  ros::NodeHandle nh;
  auto pub = create_occupancy_grid_publisher<GridMap>(&slam, nh, interval);
  uint64_t now = rnd_time(rng), last = 0;
  size_t n = 0;
  int w0 = m->width(), h0 = m->height();
  for (int i = 0, k = rng.range(1, 8); i < k; ++i) {
    Geo g{*m};
    for (int u = rng.range(0, 15); 0 < u; --u) {
      int r = is_unbounded(kind) && rng.chance(0.2) ? 6 : 0;
      C c(rng.range(-g.o.x - r, g.w - g.o.x - 1 + r), rng.range(-g.o.y - r, g.h - g.o.y - 1 + r));
      auto o = tame_obs(rng);
      if (rng.chance(0.2)) { o = mk_obs(rng.pickd({0, 1}), 1, 1, rng.chance(0.5)); }
      m->update(c, o);
    }
    if (m->width() != w0 || m->height() != h0) { count("grown_maps"); }
    now += rng.chance(0.3) ? uint64_t(interval * 1e9) + rng.pick(std::vector<uint64_t>{0, 1, 1000}) - (rng.chance(0.5) && 0 < interval) : rng.below(uint64_t(interval * 1.5e9) + 1000);
    set_now(now);
    slam.map(*m);
    bool due = uint64_t(std::llround(interval * 1e9)) <= now - last;
    auto &all = ros_stub::published<nav_msgs::OccupancyGrid>()["map"];
    std::ostringstream w; w << kMapKinds[kind] << "/" << kCells[ck] << " " << Geo{*m}.str() << " at " << now << ", last " << last << ", interval " << interval;
    VF_CHECK(all.size() <= n + due, "published-too-often", w.str());
    VF_CHECK(n + due <= all.size(), "not-published", w.str());
    eval();
    if (!due) { count("suppressed_updates"); continue; }
    last = now; ++n;
    auto &msg = all.back();
    Geo h{*m};
    VF_CHECK(msg.header.frame_id == frame, "grid-frame", msg.header.frame_id);
    VF_CHECK((int)msg.info.width == h.w && (int)msg.info.height == h.h && near(msg.info.resolution, h.s, 1e-6), "grid-size",
             w.str() << ": " << msg.info.width << "x" << msg.info.height << " res " << msg.info.resolution);
    VF_CHECK(msg.data.size() == size_t(h.w) * h.h, "grid-data-size", w.str() << ": " << msg.data.size());
    auto &p = msg.info.origin.position;
    VF_CHECK(near(p.x, -h.s * h.o.x, 1e-5) && near(p.y, -h.s * h.o.y, 1e-5) && p.z == 0, "grid-position", w.str() << ": " << p.x << " " << p.y);
    auto &q = msg.info.origin.orientation;
    VF_CHECK(q.x == 0 && q.y == 0 && q.z == 0, "grid-turned", w.str());
    for (int y = 0; y < h.h; ++y) for (int x = 0; x < h.w; ++x) {
      // the cell a reader finds at the pixel's place in the world
      auto c = m->world_to_cell(p.x + (x + 0.5) * msg.info.resolution, p.y + (y + 0.5) * msg.info.resolution);
      VF_CHECK(m->has_cell(c), "grid-outside", w.str() << " pixel " << x << " " << y);
      double v = (*m)[c].occupancy().prob_occ;
      int got = msg.data[size_t(y) * h.w + x];
      bool ok = v == -1 ? got == -1 : std::abs(got - 100 * v) < 1 + 1e-6 && 0 <= got && got <= 100;
      VF_CHECK(ok, "grid-value", w.str() << " pixel " << x << " " << y << " cell " << cs(c) << ": " << got << " for " << v);
      count("cells_compared");
      if (v == -1) { count("unknown_cells"); }
    }
    count("grids_published");
    distinct(Hash().add(now).add(h.w).add(h.h).add((double)h.s));
  }
  if (rng.chance(0.002)) { sample(Geo{*m}.str()); }
}

namespace {
struct Line { uint64_t t; RobotPose p; };
void check_traj(const std::string &f, const std::vector<Line> &want) {
  std::ifstream in{f};
  std::string l; size_t k = 0;
  while (std::getline(in, l)) {
    VF_CHECK(k < want.size(), "extra-entry", l);
    auto &w = want[k++];
    std::istringstream is{l};
    std::string t, extra; double v[7];
    is >> t;
    for (auto &a : v) { is >> a; }
    VF_CHECK(!is.fail() && !(is >> extra), "entry-format", l);
    auto dot = t.find('.');
    uint64_t sec = 0, ns = 0;
    try {
      sec = std::stoull(t.substr(0, dot));
      if (dot != std::string::npos) {
        auto fr = t.substr(dot + 1); VF_CHECK(!fr.empty() && fr.size() <= 9, "entry-time-format", l);
        fr.resize(9, '0'); ns = std::stoull(fr);
      }
    } catch (const std::logic_error &) { VF_CHECK(false, "entry-time-format", l); }
    VF_CHECK(sec * 1000000000ull + ns == w.t, "entry-time", l << " was reported at " << w.t / 1000000000ull << " s " << w.t % 1000000000ull << " ns");
    VF_CHECK(near(v[0], w.p.x, 1e-5) && near(v[1], w.p.y, 1e-5) && v[2] == 0, "entry-position", l << " for " << ps(w.p));
    VF_CHECK(near(v[3] * v[3] + v[4] * v[4] + v[5] * v[5] + v[6] * v[6], 1, 1e-4) && v[3] == 0 && v[4] == 0, "entry-rotation", l);
    double th = 2 * std::atan2(v[5], v[6]);
    VF_CHECK(std::abs(wrap(th - w.p.theta)) < 2e-5, "entry-heading", l << ": heading " << th << " for " << w.p.theta);
    count("trajectory_entries");
    if (w.t % 1000000000ull < 100000000) { count("small_nanoseconds"); }
  }
  VF_CHECK(k == want.size(), "entries-lost", k << " of " << want.size());
}
} // namespace

FAMILY(trajectory, 1500, 40000) {
  auto f = tmp_name();
  std::vector<Line> want;
  bool flush = rng.chance(0.5);
  if (rng.chance(0.3)) { // an earlier run's file
    std::ofstream o{f}; for (int i = rng.range(1, 40); i; --i) { o << "1.5 9 9 0 0 0 0 1\n"; }
    count("overwritten_trajectories");
  }
  auto d = std::make_shared<RobotPoseTumTrajectoryDumper>(f, flush);
  Obs<GridMap> slam; slam.subscribe_pose(d);
  uint64_t t = rnd_time(rng);
  for (int i = 0, n = rng.range(0, 12); i < n; ++i) {
    auto p = rnd_pose(rng);
    if (rng.chance(0.5)) { d->log_robot_pose(ros::Time::from_ns(t), p); }
    else { set_now(t); slam.pose(p); }
    want.push_back({t, p});
    if (flush && rng.chance(0.5)) { check_traj(f, want); }
    t += rng.chance(0.3) ? 1000000000 - t % 1000000000 + rng.below(1000) : rng.below(300000000);
    eval(); distinct(Hash().add(t).add(p.x).add(p.theta));
  }
  d.reset();
  slam.pose(rnd_pose(rng)); // nobody listens any more
  check_traj(f, want);
  std::remove(f.c_str());
}

FAMILY(frames, 3000, 60000) {
  ros_stub::params().clear();
  std::string mf = "map", rf = "robot_pose";
  if (rng.chance(0.5)) { mf = "world"; ros::param::set("~ros/tf/map_frame_id", mf); }
  if (rng.chance(0.5)) { rf = "me"; ros::param::set("~ros/tf/robot_pose_frame_id", rf); }
  std::vector<tf::StampedTransform> sent;
  ros_stub::tf_sent() = [&](const tf::StampedTransform &t) { sent.push_back(t); };
  Obs<GridMap> slam;
  int kind = rng.below(3);
  ros::NodeHandle nh;
  ros_stub::subscribers<Scan>().clear();
  TopicWithTransform<Scan> twt{nh, "/scan", "odom"};
  MapPropertiesProvider props;
  std::shared_ptr<WorldPoseObserver> pin;
  if (kind == 0) { pin = create_robot_pose_tf_publisher<GridMap>(&slam); }
  if (kind == 1) { pin = make_pose_correction_observation_stamped_publisher<Scan, GridMap>(&slam, &twt, props); }
  ros_stub::tf_lookup() = [&](const std::string &t, const std::string &s, const ros::Time &time, tf::StampedTransform &out) {
    out = tf::StampedTransform{tf::Transform{tf::createQuaternionFromRPY(0, 0, 1), tf::Vector3{4, 5, 6}}, time, t, s};
  };
  uint64_t obs_t = 0;
  for (int i = 0, n = rng.range(1, 10); i < n; ++i) {
    uint64_t now = rnd_time(rng); set_now(now);
    if (!i || rng.chance(0.7)) {
      auto m = boost::make_shared<Scan>();
      obs_t = now - rng.below(1000000000); m->header.stamp = ros::Time::from_ns(obs_t); m->header.frame_id = "laser";
      ros_stub::deliver<Scan>("/scan", m);
    }
    auto p = rnd_pose(rng);
    sent.clear();
    if (kind == 2) { publish_2D_transform(rf, mf, p); } else { slam.pose(p); }
    VF_CHECK(sent.size() == 1, "frames-number", sent.size());
    auto &t = sent[0];
    VF_CHECK(t.frame_id_ == mf && t.child_frame_id_ == rf, "frame-names", t.frame_id_ << " -> " << t.child_frame_id_);
    VF_CHECK(t.stamp_.toNSec() == (kind == 1 ? obs_t : now), "frame-time", "kind " << kind << ": " << t.stamp_.toNSec() << " now " << now << " observed " << obs_t);
    auto e = t * tf::Vector3{1, 0, 0};
    VF_CHECK(near(t.getOrigin().x(), p.x) && near(t.getOrigin().y(), p.y) && t.getOrigin().z() == 0 && near(e.x(), p.x + std::cos(p.theta)) &&
             near(e.y(), p.y + std::sin(p.theta)) && std::abs(e.z()) < 1e-12, "frame-pose", ps(p) << " published as " << t.getOrigin().x() << " "
             << t.getOrigin().y() << " yaw " << tf::getYaw(t.getRotation()));
    count("frames"); eval(); distinct(Hash().add(p.x).add(p.theta).add(now));
  }
  ros_stub::tf_sent() = nullptr;
  ros_stub::tf_lookup() = nullptr;
}

// the node which publishes the robot's path
FAMILY(path, 300, 6000) {
  ros_stub::params().clear(); ros_stub::published<nav_msgs::Path>().clear();
  std::string base = "base_link", topic = "path";
  if (rng.chance(0.5)) { base = "base"; ros::param::set("base_link_frame_id", base); }
  if (rng.chance(0.5)) { topic = "track"; ros::param::set("path_topic_name", topic); }
  std::vector<std::pair<uint64_t, RobotPose>> told;
  size_t n = rng.chance(0.03) ? rng.range(60, 200) : rng.range(1, 10);
  ros_stub::tf_lookup() = [&](const std::string &t, const std::string &s, const ros::Time &time, tf::StampedTransform &out) {
    if (rng.chance(0.3)) { count("failed_lookups"); throw tf::LookupException{"not yet"}; }
    VF_CHECK(t == "map" && s == base && time.isZero(), "path-lookup", t << " " << s);
    auto p = rnd_pose(rng); auto at = rnd_time(rng);
    told.emplace_back(at, p);
    out = tf::StampedTransform{tf::Transform{tf::createQuaternionFromRPY(0, 0, p.theta), tf::Vector3{p.x, p.y, 0}}, ros::Time::from_ns(at), t, s};
  };
  ros_stub::ok_flag() = true;
  ros_stub::on_publish() = [&]() { if (n <= ros_stub::published<nav_msgs::Path>()[topic].size()) { ros::shutdown(); } };
  char *argv[] = {(char *)"path", nullptr};
  path_main(1, argv);
  ros_stub::on_publish() = nullptr; ros_stub::tf_lookup() = nullptr; ros_stub::ok_flag() = true;
  auto &all = ros_stub::published<nav_msgs::Path>()[topic];
  VF_CHECK(all.size() == n && told.size() == n, "path-messages", all.size() << " of " << n);
  for (size_t i = 0; i < n; ++i) {
    auto &m = all[i];
    VF_CHECK(m.header.frame_id == "map" && m.poses.size() == i + 1 && m.header.stamp.toNSec() == told[i].first, "path-header", "message " << i << " has "
             << m.poses.size() << " poses");
    for (size_t j = 0; j <= i; ++j) {
      auto &p = m.poses[j];
      VF_CHECK(p.header.stamp.toNSec() == told[j].first && p.header.frame_id == "map" && p.pose.position.x == told[j].second.x &&
               p.pose.position.y == told[j].second.y, "path-pose", "message " << i << " pose " << j);
    }
    count("path_messages");
  }
  eval(); distinct(Hash().add(told[0].first).add((uint64_t)n));
}

struct Finish {}; // main() without a return statement is left this way

// the adapter of recorded runs: everything passes but the recorded correction, which is pinned to its first value
FAMILY(adapter, 300, 6000) {
  static bool pinned = false; static geometry_msgs::TransformStamped first; // the program's own state lives as long as the process
  ros_stub::params().clear();
  ros_stub::subscribers<tf::tfMessage>().clear(); ros_stub::subscribers<nav_msgs::OccupancyGrid>().clear();
  ros_stub::published<nav_msgs::OccupancyGrid>().clear();
  std::vector<tf::StampedTransform> sent;
  ros_stub::tf_sent() = [&](const tf::StampedTransform &t) { sent.push_back(t); };
  ros_stub::ok_flag() = true;
  int rounds = rng.range(1, 6);
  nav_msgs::OccupancyGrid last = provided_grid;
  ros_stub::on_spin() = [&]() {
    auto m = boost::make_shared<tf::tfMessage>();
    std::vector<geometry_msgs::TransformStamped> in;
    for (int i = rng.range(0, 5); 0 < i; --i) {
      auto p = rnd_pose(rng);
      tf::StampedTransform t{tf::Transform{tf::createQuaternionFromRPY(0, 0, p.theta), tf::Vector3{p.x, p.y, 0}}, ros::Time::from_ns(rnd_time(rng)),
        rng.pick(std::vector<std::string>{"/map", "/odom_combined", "/base"}), rng.pick(std::vector<std::string>{"/odom_combined", "/laser"})};
      geometry_msgs::TransformStamped g; tf::transformStampedTFToMsg(t, g); in.push_back(g);
    }
    m->transforms = in;
    sent.clear();
    ros_stub::deliver<tf::tfMessage>("tf_in", m);
    VF_CHECK(sent.size() == in.size(), "adapter-number", sent.size() << " of " << in.size());
    for (size_t i = 0; i < in.size(); ++i) {
      auto w = in[i];
      if (w.header.frame_id == "/map" && w.child_frame_id == "/odom_combined") {
        if (!pinned) { first = w; first.header.frame_id = "/provided_map"; first.child_frame_id = "/map"; pinned = true; }
        w = first; count("corrections_replaced");
      }
      auto &t = sent[i];
      VF_CHECK(t.frame_id_ == w.header.frame_id && t.child_frame_id_ == w.child_frame_id && t.stamp_ == w.header.stamp &&
               t.getOrigin().x() == w.transform.translation.x && t.getOrigin().y() == w.transform.translation.y &&
               t.getRotation().z() == w.transform.rotation.z && t.getRotation().w() == w.transform.rotation.w, "adapter-transform",
               in[i].header.frame_id << " -> " << in[i].child_frame_id << " came as " << t.frame_id_ << " -> " << t.child_frame_id_);
      count("adapted");
    }
    if (rng.chance(0.5)) {
      auto g = boost::make_shared<nav_msgs::OccupancyGrid>();
      g->header.frame_id = "map"; g->info.width = rng.below(5); g->data.assign(rng.below(10), (int8_t)rng.below(101));
      last = *g; last.header.frame_id = "provided_map";
      ros_stub::deliver<nav_msgs::OccupancyGrid>("provided_grid_orig", g);
    }
    if (--rounds <= 0) { throw Finish{}; }
  };
  auto before = last;
  ros_stub::on_publish() = [&]() {
    auto &g = ros_stub::published<nav_msgs::OccupancyGrid>()["provided_grid"].back();
    VF_CHECK(g.header.frame_id == last.header.frame_id && g.info.width == last.info.width && g.data == last.data, "adapter-grid", g.header.frame_id);
    count("adapted_grids");
  };
  char *argv[] = {(char *)"adapter", nullptr};
  try { adapter_main(1, argv); } catch (const Finish &) { }
  ros_stub::on_spin() = nullptr; ros_stub::on_publish() = nullptr; ros_stub::tf_sent() = nullptr; ros_stub::ok_flag() = true;
  eval(); distinct(Hash().add((uint64_t)st().idx));
}
VF_MAIN
