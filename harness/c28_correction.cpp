// C28: map->odometry corrections: consistent with the scan and the pose they were made from; asynchronous publishing.
// The stand-ins use relaxed atomics and per-thread journals only, so that they order nothing for the race detector.
#include "common.h"
#include "stub.h"
#include "ros/init_utils.h"
#include "core/maps/grid_map.h"
using namespace vf;
using Scan = sensor_msgs::LaserScan;

#ifdef VF_ASYNC
REQUIRE_EVENTS("background_corrections", 1000)
REQUIRE_EVENTS("foreground_corrections", 2000)
REQUIRE_EVENTS("late_sends", 300)
REQUIRE_EVENTS("destroyed_while_running", 50)
#else
REQUIRE_EVENTS("corrections", 5000)
REQUIRE_EVENTS("scans_without_pose", 500)
#endif

namespace {
double wrap(double a) { return std::remainder(a, 2 * M_PI); }
struct P2 { double x, y, th; };
P2 rnd(Rng &rng) {
  double s = rng.chance(0.1) ? 500 : rng.pickd({0.01, 1, 30});
  return {rng.uni(-s, s), rng.uni(-s, s), rng.chance(0.1) ? rng.pickd({0, M_PI, -M_PI, M_PI / 2}) : rng.uni(-7, 7)};
}
// the robot moves, turns on the spot or stands still
P2 next(Rng &rng, const P2 &p) {
  auto n = rnd(rng);
  if (rng.chance(0.2)) { count("turned_on_the_spot"); return {p.x, p.y, n.th}; }
  if (rng.chance(0.1)) { count("stood_still"); return p; }
  return n;
}
P2 mul(const P2 &a, const P2 &b) {
  return {a.x + b.x * std::cos(a.th) - b.y * std::sin(a.th), a.y + b.x * std::sin(a.th) + b.y * std::cos(a.th), a.th + b.th};
}
P2 inv(const P2 &a) {
  return {-a.x * std::cos(a.th) - a.y * std::sin(a.th), a.x * std::sin(a.th) - a.y * std::cos(a.th), -a.th};
}
P2 of(const tf::Transform &t) { return {t.getOrigin().x(), t.getOrigin().y(), tf::getYaw(t.getRotation())}; }
bool close(const P2 &a, const P2 &b, double e = 1e-7) {
  double s = std::max({1.0, std::abs(a.x), std::abs(a.y), std::abs(b.x), std::abs(b.y)});
  return std::abs(a.x - b.x) < e * s && std::abs(a.y - b.y) < e * s && std::abs(wrap(a.th - b.th)) < e;
}
std::string str(const P2 &p) { std::ostringstream o; o << "(" << p.x << "," << p.y << "," << p.th << ")"; return o.str(); }
struct Slam : WorldObservable<GridMap> { void pose(const RobotPose &p) { notify_with_pose(p); } };
} // namespace

#ifndef VF_ASYNC
FAMILY(consistency, 3000, 80000) {
  ros_stub::params().clear(); ros_stub::subscribers<Scan>().clear();
  std::string mf = "map", of_ = "odom_combined";
  if (rng.chance(0.5)) { mf = "world"; ros::param::set("~ros/tf/map_frame_id", mf); }
  MapPropertiesProvider props;
  if (rng.chance(0.5)) { of_ = "odom"; props.set_property("in/odometry/ros/tf/odom_frame_id", of_); }
  std::vector<tf::StampedTransform> sent;
  ros_stub::tf_sent() = [&](const tf::StampedTransform &t) { sent.push_back(t); };
  P2 odo{0, 0, 0}; double z = 0;
  ros_stub::tf_lookup() = [&](const std::string &t, const std::string &s, const ros::Time &time, tf::StampedTransform &out) {
    out = tf::StampedTransform{tf::Transform{tf::createQuaternionFromRPY(0, 0, odo.th), tf::Vector3{odo.x, odo.y, z}}, time, t, s};
  };
  Slam slam; ros::NodeHandle nh;
  TopicWithTransform<Scan> twt{nh, "/scan", of_};
  struct Chain : TopicObserver<Scan> { // the scan reaches the slam after the publisher, as in the node
    std::function<void()> f;
    void handle_transformed_msg(const boost::shared_ptr<Scan>, const tf::StampedTransform &) override { f(); }
  };
  auto pub = create_pose_correction_tf_publisher<Scan, GridMap>(&slam, &twt, props);
  auto chain = std::make_shared<Chain>();
  twt.subscribe(chain);
  for (int i = 0, n = rng.range(1, 12); i < n; ++i) {
    uint64_t now = 1500000000000000000ull + rng.below(1000000000000); ros_stub::clock_ns() = now;
    odo = next(rng, odo); z = rng.chance(0.5) ? rng.uni(-2, 2) : 0;
    sent.clear();
    std::vector<P2> poses;
    for (int k = rng.chance(0.2) ? 0 : rng.range(1, 3); 0 < k; --k) { poses.push_back(rnd(rng)); }
    if (poses.empty()) { count("scans_without_pose"); }
    chain->f = [&]() { for (auto &p : poses) { slam.pose({p.x, p.y, p.th}); } };
    auto m = boost::make_shared<Scan>();
    m->header.frame_id = "laser"; m->header.stamp = ros::Time::from_ns(now);
    ros_stub::deliver<Scan>("/scan", m);
    VF_CHECK(sent.size() == poses.size(), "corrections-number", sent.size() << " for " << poses.size() << " poses");
    for (size_t k = 0; k < poses.size(); ++k) {
      auto &t = sent[k];
      VF_CHECK(t.frame_id_ == mf && t.child_frame_id_ == of_, "correction-frames", t.frame_id_ << " -> " << t.child_frame_id_);
      VF_CHECK(t.stamp_.toNSec() == now, "correction-time", t.stamp_.toNSec() << " at " << now);
      auto got = mul(of(t), odo);
      VF_CHECK(close(got, poses[k]) && std::abs(t.getOrigin().z()) < 1e-9, "correction", "correction " << str(of(t)) << " with odometry " << str(odo) << " gives "
               << str(got) << " but the pose is " << str(poses[k]));
      // not only the yaw: no tilt
      auto up = t * tf::Vector3{0, 0, 1};
      VF_CHECK(std::abs(up.z() - 1) < 1e-9, "correction-tilted", up.z());
      count("corrections"); eval(); distinct(Hash().add(odo.x).add(poses[k].x).add(poses[k].th));
    }
  }
  if (rng.chance(0.001)) { sample(str(odo)); }
  ros_stub::tf_sent() = nullptr; ros_stub::tf_lookup() = nullptr;
}
#else
namespace {
struct Rec { uint64_t seq; P2 t; bool bg; };
std::atomic<uint64_t> seq{0}, bg_n{0}, delays{0};
std::atomic<int> max_delay_us{0};
thread_local bool is_main = false;
thread_local uint64_t trng = 0;
Rec *journal_main, *journal_bg; // one writer each
std::atomic<uint64_t> n_main{0}, n_bg{0};
constexpr uint64_t kMax = 200000;
void sink(const tf::StampedTransform &t) {
  if (!trng) { trng = mix64(is_main ? 1 : 2); }
  trng = mix64(trng);
  int d = max_delay_us.load(std::memory_order_relaxed);
  if (d && trng % 3 == 0) {
    std::this_thread::sleep_for(std::chrono::microseconds(trng / 3 % d));
    delays.fetch_add(1, std::memory_order_relaxed);
  } else if (trng % 3 == 1) { std::this_thread::yield(); }
  uint64_t s = seq.fetch_add(1, std::memory_order_relaxed);
  auto &n = is_main ? n_main : n_bg;
  uint64_t i = n.load(std::memory_order_relaxed);
  if (i < kMax) { (is_main ? journal_main : journal_bg)[i] = Rec{s, of(t), !is_main}; }
  n.store(i + 1, std::memory_order_relaxed);
}
bool wait_bg(uint64_t more) {
  uint64_t from = n_bg.load(std::memory_order_relaxed);
  for (int i = 0; i < 40000; ++i) {
    if (from + more <= n_bg.load(std::memory_order_relaxed)) { return true; }
    std::this_thread::sleep_for(std::chrono::microseconds(500));
  }
  return false;
}
} // namespace

FAMILY(async, 240, 4000) {
  is_main = true;
  if (!journal_main) { journal_main = new Rec[kMax]; journal_bg = new Rec[kMax]; }
  n_main = 0; n_bg = 0; seq = 0;
  ros_stub::params().clear(); ros_stub::subscribers<Scan>().clear();
  ros_stub::ok_flag() = true;
  ros_stub::rate_us() = rng.pick(std::vector<int>{0, 0, 50, 1000});
  max_delay_us = rng.pick(std::vector<int>{0, 20, 200, 2000});
  ros_stub::tf_sent() = sink;
  P2 odo{0, 0, 0};
  ros_stub::tf_lookup() = [&](const std::string &t, const std::string &s, const ros::Time &time, tf::StampedTransform &out) {
    out = tf::StampedTransform{tf::Transform{tf::createQuaternionFromRPY(0, 0, odo.th), tf::Vector3{odo.x, odo.y, 0}}, time, t, s};
  };
  Slam slam; ros::NodeHandle nh; MapPropertiesProvider props;
  ros::param::set("~ros/tf/async_correction", true);
  std::vector<P2> valid{{0, 0, 0}};
  std::vector<std::pair<uint64_t, size_t>> own; // entry of the foreground journal -> correction it has to carry
  int ending = rng.below(4);
  {
    TopicWithTransform<Scan> twt{nh, "/scan", "odom"};
    auto pub = create_pose_correction_tf_publisher<Scan, GridMap>(&slam, &twt, props);
    if (rng.chance(0.7)) { VF_CHECK(wait_bg(1), "background-silent", "nothing was published in 20 s"); }
    for (int i = 0, n = rng.range(0, 40); i < n; ++i) {
      odo = next(rng, odo); auto pose = rnd(rng);
      ros_stub::clock_ns().store(1500000000000000000ull + i * 1000000, std::memory_order_relaxed);
      auto m = boost::make_shared<Scan>();
      m->header.frame_id = "laser"; m->header.stamp = ros::Time::now();
      ros_stub::deliver<Scan>("/scan", m);
      valid.push_back(mul(pose, inv(odo)));
      if (rng.chance(0.3)) { std::this_thread::yield(); }
      uint64_t before = n_main.load(std::memory_order_relaxed);
      slam.pose({pose.x, pose.y, pose.th});
      uint64_t after = n_main.load(std::memory_order_relaxed);
      VF_CHECK(before < after, "not-published", "pose update " << i << " published nothing");
      for (uint64_t k = before; k < after; ++k) { own.emplace_back(k, valid.size() - 1); }
      if (rng.chance(0.2)) { std::this_thread::sleep_for(std::chrono::microseconds(rng.below(500))); }
      if (rng.chance(0.1)) { VF_CHECK(wait_bg(2), "background-stalled", "nothing was published in 20 s"); }
    }
    if (ending == 0) { ros::shutdown(); std::this_thread::sleep_for(std::chrono::microseconds(rng.below(300))); }
    if (ending == 1) { std::this_thread::sleep_for(std::chrono::microseconds(rng.below(2000))); }
    if (ending != 0) { count("destroyed_while_running"); }
    // ending 3: at once
  }
  // the thread is gone: nobody publishes any more
  uint64_t bg = n_bg.load(std::memory_order_relaxed);
  std::this_thread::sleep_for(std::chrono::microseconds(max_delay_us.load() + 500));
  VF_CHECK(bg == n_bg.load(std::memory_order_relaxed), "published-after-end", "the thread outlives the publisher");
  std::vector<Rec> all(journal_main, journal_main + std::min<uint64_t>(kMax, n_main.load()));
  all.insert(all.end(), journal_bg, journal_bg + std::min<uint64_t>(kMax, bg));
  std::sort(all.begin(), all.end(), [](const Rec &a, const Rec &b) { return a.seq < b.seq; });
  size_t at = 0; bool from_bg = false;
  uint64_t h = 0;
  for (auto &r : all) {
    if (!close(r.t, valid[at])) {
      size_t k = at + 1;
      while (k < valid.size() && !close(r.t, valid[k])) { ++k; }
      if (k == valid.size()) {
        size_t o = 0; while (o < at && !close(r.t, valid[o])) { ++o; }
        VF_CHECK(o == at, "went-back", "correction " << o << " was published after correction " << at << (r.bg ? " (background)" : " (foreground)"));
        VF_CHECK(false, "torn", str(r.t) << " is none of the corrections");
      }
      at = k;
    }
    count(r.bg ? "background_corrections" : "foreground_corrections");
    h = mix64(h ^ (at * 2 + r.bg));
    eval();
  }
  for (auto &o : own) { VF_CHECK(close(journal_main[o.first].t, valid[o.second]), "wrong-own", "the pose update's own correction is another one"); }
  distinct(h);
  if (rng.chance(0.02)) { sample(std::to_string(all.size()) + " publications of " + std::to_string(valid.size()) + " corrections, interleaving digest " + std::to_string(h)); }
  count("late_sends", delays.exchange(0));
  ros_stub::ok_flag() = true;
  ros_stub::tf_sent() = nullptr; ros_stub::tf_lookup() = nullptr;
}
#endif
VF_MAIN
