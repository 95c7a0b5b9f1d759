// C26: laser messages -> scans and odometry increments; dispatch of messages with transforms; reading them from a bag.
#include "common.h"
#include "stub.h"
#include "ros/laser_scan_observer.h"
#include "ros/bag_topic_with_transform.h"
#include "ros/init_utils.h"
#include "scene_common.h"
using namespace vf;
using Scan = sensor_msgs::LaserScan;
using ScanPtr = boost::shared_ptr<Scan>;

REQUIRE_EVENTS("points_delivered", 100000)
REQUIRE_EVENTS("clipped_points", 5000)
REQUIRE_EVENTS("clockwise_scans", 300)
REQUIRE_EVENTS("messages_without_ranges", 100)
REQUIRE_EVENTS("unusable_transforms_in_company", 500)
REQUIRE_EVENTS("nan_readings", 1000)
REQUIRE_EVENTS("increments", 5000)
REQUIRE_EVENTS("dispatched", 20000)
REQUIRE_EVENTS("messages_without_transform", 1000)
REQUIRE_EVENTS("bag_messages_delivered", 10000)
REQUIRE_EVENTS("bag_messages_without_transform", 1000)

namespace {
struct RecSlam : SensorDataObserver<TransformedLaserScan> {
  std::vector<TransformedLaserScan> got;
  void handle_sensor_data(TransformedLaserScan &s) override { got.push_back(s); }
};

ScanPtr rnd_scan(Rng &rng) {
  auto m = boost::make_shared<Scan>();
  int n = rng.chance(0.05) ? 0 : rng.chance(0.1) ? rng.range(1, 2) : rng.chance(0.1) ? rng.range(500, 1500) : rng.range(3, 80);
  double fov = rng.chance(0.2) ? 2 * M_PI : rng.uni(0.05, 2 * M_PI);
  float inc = rng.chance(0.2) ? deg2rad(rng.pickd({0.25, 0.5, 1})) : fov / std::max(1, n);
  if (2.1 * M_PI < inc * n) { inc = fov / n; }
  float mn = rng.chance(0.5) ? float(-inc * (n - 1) / 2) : float(rng.uni(-2 * M_PI, M_PI));
  if (rng.chance(0.5) && 2 < n) { mn = float(-M_PI); }
  m->angle_min = mn; m->angle_increment = inc;
  m->angle_max = rng.chance(0.5) ? float(mn + (n - 1) * inc) : float(double(mn) + (n - 1) * double(inc));
  if (rng.chance(0.15)) { // a scanner turning clockwise (or mounted upside down)
    m->angle_min = -m->angle_min; m->angle_max = -m->angle_max; m->angle_increment = -m->angle_increment;
    count("clockwise_scans");
  }
  m->range_min = rng.pickd({0, 0.02, 0.1, 0.5});
  m->range_max = rng.pickd({4, 5.6, 30, 80.25});
  for (int i = 0; i < n; ++i) {
    float r = rng.uni(m->range_min, m->range_max);
    switch (rng.below(14)) {
    case 0: r = 0; break;
    case 1: r = m->range_min; break;
    case 2: r = std::nextafter(m->range_min, -1.f); break;
    case 3: r = m->range_max; break;
    case 4: r = std::nextafter(m->range_max, 1e9f); break;
    case 5: r = std::nextafter(m->range_max, 0.f); break;
    case 6: r = std::numeric_limits<float>::infinity(); break;
    case 7: r = rng.chance(0.5) ? -1 : -std::numeric_limits<float>::infinity(); break;
    case 8: r = std::numeric_limits<float>::quiet_NaN(); break;
    case 9: r = m->range_max * rng.uni(1, 3); break;
    default: break;
    }
    m->ranges.push_back(r);
  }
  if (rng.chance(0.3)) { m->intensities.resize(n, 1.f); }
  m->header.frame_id = "laser";
  return m;
}
std::string ds(const Scan &m) {
  std::ostringstream o; o << std::setprecision(9) << "scan of " << m.ranges.size() << " from " << m.angle_min << " by " << m.angle_increment << ", ranges "
                          << m.range_min << ".." << m.range_max;
  return o.str();
}
void check_scan(const Scan &m, const LaserScan2D &s, bool skip, const std::string &what) {
  size_t k = 0;
  for (size_t i = 0; i < m.ranges.size(); ++i) {
    float r = m.ranges[i];
    if (std::isnan(r)) { count("nan_readings"); continue; }
    if (r < m.range_min) { count("too_close_readings"); continue; }
    bool occ = r < m.range_max;
    if (!occ && skip) { count("skipped_points"); continue; }
    VF_CHECK(k < s.points().size(), "point-lost", what << ": only " << k << " points, reading " << i << " = " << r << " is missing");
    auto &p = s.points()[k++];
    // messages carry floats, so does the first bearing
    double a = double(m.angle_min) + double(m.angle_increment) * i;
    VF_CHECK(p.is_occupied() == occ, "obstacle-flag", what << ": reading " << i << " = " << r << " flag " << p.is_occupied());
    VF_CHECK(p.range() == double(occ ? r : m.range_max), "range", what << ": reading " << i << " = " << r << " became " << p.range());
    VF_CHECK(std::abs(p.angle() - a) < 2e-6, "bearing", what << ": reading " << i << " at " << a << " became " << p.angle());
    count("points_delivered"); if (!occ) { count("clipped_points"); }
  }
  VF_CHECK(k == s.points().size(), "extra-points", what << ": " << s.points().size() << " points, want " << k);
}
tf::StampedTransform tr(double x, double y, double th, const ros::Time &t = ros::Time{1, 0}) {
  return tf::StampedTransform{tf::Transform{tf::createQuaternionFromRPY(0, 0, th), tf::Vector3{x, y, 0.3}}, t, "odom", "laser"};
}
double wrap(double a) { return std::remainder(a, 2 * M_PI); }
} // namespace

FAMILY(conversion, 6000, 150000) {
  auto m = rnd_scan(rng);
  bool skip = rng.chance(0.5), cached = rng.chance(0.5) && !m->ranges.empty();
  auto slam = std::make_shared<RecSlam>();
  LaserScanObserver o{slam, skip, cached};
  auto before = m->ranges;
  auto s = o.msg2scan(m);
  auto what = ds(*m) + (skip ? " skipping" : " clipping") + (cached ? " cached" : "");
  check_scan(*m, s.scan, skip, what);
  VF_CHECK(s.quality == 1.0, "quality", s.quality);
  VF_CHECK(std::equal(before.begin(), before.end(), m->ranges.begin(), [](float a, float b) { return a == b || (a != a && b != b); }),
           "message-changed", what);
  VF_CHECK(slam->got.empty(), "delivered-by-conversion", what);
  VF_CHECK(!!s.scan.trig_provider, "no-trig-provider", what);
  for (double base : {0.0, rng.uni(-7, 7)}) {
    s.scan.trig_provider->set_base_angle(base);
    for (auto &p : s.scan.points()) {
      if (rng.chance(0.3)) { continue; }
      double c = s.scan.trig_provider->cos(p.angle()), sn = s.scan.trig_provider->sin(p.angle());
      VF_CHECK(near(c, std::cos(p.angle() + base), 2e-6) && near(sn, std::sin(p.angle() + base), 2e-6), "trig",
               what << ": bearing " << p.angle() << " heading " << base << ": " << sn << " " << c);
      auto w = p.move_origin(1, 2, s.scan.trig_provider);
      VF_CHECK(std::hypot(w.x - 1 - p.range() * std::cos(p.angle() + base), w.y - 2 - p.range() * std::sin(p.angle() + base)) < 4e-6 * (1 + p.range()), "end-point",
               what << ": bearing " << p.angle());
      count("bearings_looked_up");
    }
  }
  eval(); distinct(Hash().add((double)m->angle_min).add((double)m->angle_increment).add((uint64_t)m->ranges.size()).add(skip));
  if (rng.chance(0.001)) { sample(what); }
}

// messages one after another: each scan's increment is the change since the previous message
FAMILY(increments, 1500, 40000) {
  auto slam = std::make_shared<RecSlam>();
  bool skip = rng.chance(0.5);
  LaserScanObserver o{slam, skip, rng.chance(0.3)};
  double x = 0, y = 0, th = 0, px = 0, py = 0, pth = 0, sx = 0, sy = 0, sth = 0, ox = 0, oy = 0, oth = 0;
  size_t n = 0;
  for (int i = 0, k = rng.range(1, 20); i < k; ++i) {
    if (rng.chance(0.1)) { // the origin is redefined
      px = rng.uni(-5, 5); py = rng.uni(-5, 5); pth = rng.uni(-3, 3);
      o.set_odometry_pose(RobotPose{px, py, pth});
      sx = sy = sth = 0; ox = px; oy = py; oth = pth;
      count("odometry_resets");
    }
    if (!rng.chance(0.15)) {
      double st = rng.chance(0.05) ? 1000 : rng.pickd({0.001, 0.1, 2});
      x += rng.uni(-st, st); y += rng.uni(-st, st); th += rng.chance(0.2) ? rng.uni(-3, 3) : rng.uni(-0.3, 0.3);
    } else { count("still_messages"); }
    auto m = rnd_scan(rng);
    if (m->ranges.empty()) { count("messages_without_ranges"); }
    o.handle_transformed_msg(m, tr(x, y, th));
    std::ostringstream w; w << "message " << i << " odometry (" << x << "," << y << "," << th << ") after (" << px << "," << py << "," << pth << ")";
    VF_CHECK(slam->got.size() == ++n, "delivered-times", w.str() << ": " << slam->got.size() << " scans for " << n << " messages");
    auto &g = slam->got.back();
    check_scan(*m, g.scan, skip, ds(*m));
    VF_CHECK(near(g.pose_delta.x, x - px, 1e-9) && near(g.pose_delta.y, y - py, 1e-9), "increment", w.str() << ": " << g.pose_delta);
    VF_CHECK(std::abs(wrap(g.pose_delta.theta - (th - pth))) < 1e-9, "increment-heading", w.str() << ": " << g.pose_delta);
    sx += g.pose_delta.x; sy += g.pose_delta.y; sth += g.pose_delta.theta;
    px = x; py = y; pth = th;
    VF_CHECK(near(sx, x - ox, 1e-7) && near(sy, y - oy, 1e-7) && std::abs(wrap(sth - (th - oth))) < 1e-7, "sum", w.str() << ": increments add up to "
             << sx << " " << sy << " " << sth);
    auto &op = o.odometry_pose();
    VF_CHECK(near(op.x, x) && near(op.y, y) && std::abs(wrap(op.theta - th)) < 1e-9, "odometry-pose", w.str() << ": " << op);
    count("increments"); eval(); distinct(Hash().add(x).add(y).add(th));
  }
}

namespace {
struct Got { int obs, msg; double x; uint64_t stamp; std::string to, from; };
std::vector<Got> journal;
std::vector<std::shared_ptr<TopicObserver<Scan>>> *to_drop = nullptr;
struct RecObserver : TopicObserver<Scan> {
  int id; int drops = -1;
  explicit RecObserver(int i) : id{i} {}
  void handle_transformed_msg(const ScanPtr m, const tf::StampedTransform &t) override {
    journal.push_back({id, (int)m->header.seq, t.getOrigin().x(), t.stamp_.toNSec(), t.frame_id_, t.child_frame_id_});
    if (0 <= drops && to_drop) { (*to_drop)[drops].reset(); drops = -1; }
  }
};
} // namespace

FAMILY(dispatch, 3000, 60000) {
  journal.clear();
  ros_stub::subscribers<Scan>().clear();
  auto target = rng.pick(std::vector<std::string>{"odom", "odom_combined"});
  ros::NodeHandle nh;
  auto twt = std::make_unique<TopicWithTransform<Scan>>(nh, "/scan", target);
  auto other = rng.chance(0.3) ? std::make_unique<TopicWithTransform<Scan>>(nh, "/other", "other_odom") : nullptr;
  std::vector<std::shared_ptr<TopicObserver<Scan>>> obs;
  auto dropped_later = std::make_shared<RecObserver>(1000);
  to_drop = &obs;
  std::vector<bool> alive;
  bool fails = false;
  std::string asked; uint64_t asked_t = 0;
  ros_stub::tf_lookup() = [&](const std::string &t, const std::string &s, const ros::Time &time, tf::StampedTransform &out) {
    asked = t + "<-" + s; asked_t = time.toNSec();
    switch (fails ? 1 + rng.below(3) : 0) {
    case 1: throw tf::ExtrapolationException{"Lookup would require extrapolation into the past."};
    case 2: throw tf::LookupException{"no frame"};
    case 3: throw tf::ConnectivityException{"no way"};
    }
    out = tf::StampedTransform{tf::Transform{tf::createQuaternionFromRPY(0, 0, 0), tf::Vector3{time.nsec * 1e-3, 0, 0}}, time, t, s};
  };
  auto add = [&]() {
    auto p = std::make_shared<RecObserver>((int)obs.size());
    obs.push_back(p); alive.push_back(true); twt->subscribe(p);
  };
  for (int i = rng.range(0, 5); 0 < i; --i) { add(); }
  for (int i = 0, k = rng.range(1, 20); i < k; ++i) {
    if (rng.chance(0.1) && obs.size() < 8) { add(); }
    if (rng.chance(0.1) && !obs.empty()) {
      auto d = rng.below(obs.size()); obs[d].reset(); alive[d] = false; count("observers_gone");
    }
    fails = rng.chance(0.2);
    auto m = boost::make_shared<Scan>();
    m->header.seq = i; m->header.stamp = ros::Time{(uint32_t)(10 + i), (uint32_t)rng.below(1000000000)};
    m->header.frame_id = rng.pick(std::vector<std::string>{"laser", "base_laser_link"});
    bool elsewhere = rng.chance(0.1);
    // an observer which makes a later one go away while the message is delivered
    int killer = -1, victim = -1;
    if (!fails && !elsewhere && rng.chance(0.1) && 2 <= obs.size()) {
      int a = rng.below(obs.size()), b = rng.below(obs.size());
      if (a < b && obs[a] && obs[b]) {
        killer = a; victim = b;
        static_cast<RecObserver *>(obs[a].get())->drops = b; alive[b] = false; count("observers_gone_meanwhile");
      }
    }
    size_t from = journal.size();
    auto ex_before = ros_stub::errors().load();
    ros_stub::deliver<Scan>(elsewhere ? "/other" : "/scan", m);
    std::vector<int> got, want;
    for (size_t j = from; j < journal.size(); ++j) {
      auto &g = journal[j];
      got.push_back(g.obs);
      VF_CHECK(g.msg == i, "wrong-message", g.msg << " instead of " << i);
      VF_CHECK(near(g.x, m->header.stamp.nsec * 1e-3) && g.stamp == m->header.stamp.toNSec(), "wrong-transform", "message " << i);
    }
    if (!fails && !elsewhere) {
      for (size_t j = 0; j < obs.size(); ++j) { if (alive[j]) { want.push_back(j); } }
      VF_CHECK(asked == target + "<-" + m->header.frame_id && asked_t == m->header.stamp.toNSec(), "wrong-lookup",
               asked << " for frame " << m->header.frame_id << " at " << asked_t);
    } else if (fails) { count("messages_without_transform"); }
    std::ostringstream w; w << "message " << i << (fails ? " without transform" : "") << (elsewhere ? " of another topic" : "") << ": got";
    for (int g : got) { w << " " << g; }
    w << " want"; for (int g : want) { w << " " << g; }
    VF_CHECK(got == want, "dispatch", w.str());
    count("dispatched", got.size());
    eval(); distinct(Hash().add(i).add((uint64_t)m->header.stamp.nsec).add((uint64_t)got.size()));
  }
  to_drop = nullptr;
  ros_stub::tf_lookup() = nullptr;
}

// a whole observer chain: the correction publisher (or a stamper), then the conversion
FAMILY(ignores, 2000, 30000) {
  std::map<std::string, std::vector<std::string>> want;
  std::string txt;
  for (int i = 0, n = rng.range(0, 5); i < n; ++i) {
    if (i) { txt += ":"; }
    auto f = rng.pick(std::vector<std::string>{"map", "odom", "odom_combined", "base"}), t = rng.pick(std::vector<std::string>{"odom", "laser", "base_link", "a/b", "x-y"});
    if (rng.chance(0.1)) { txt += f; count("malformed_entries"); continue; }
    txt += f + "-" + t; want["/" + f].push_back("/" + t);
  }
  if (rng.chance(0.1)) { txt += ":"; }
  MapPropertiesProvider props;
  if (!txt.empty()) { props.set_property("in/odometry/ros/tf/ignore", txt); }
  Mute mute;
  auto got = tf_ignored_transforms(props);
  size_t pairs = 0;
  for (auto &p : got) {
    pairs += p.second.size();
    for (auto &t : p.second) {
      auto &w = want[p.first];
      VF_CHECK(std::count(w.begin(), w.end(), t), "ignores-extra", "\"" << txt << "\" gives " << p.first << " " << t);
    }
  }
  size_t all = 0;
  for (auto &p : want) for (auto &t : p.second) {
    ++all;
    VF_CHECK(got.count(p.first) && std::count(got.at(p.first).begin(), got.at(p.first).end(), t), "ignores-lost", "\"" << txt << "\" lacks " << p.first << " " << t);
  }
  VF_CHECK(pairs == all, "ignores-number", "\"" << txt << "\": " << pairs << " vs " << all);
  eval(); distinct(Hash().add((uint64_t)std::hash<std::string>{}(txt)));
}

namespace {
geometry_msgs::TransformStamped ts(const std::string &f, const std::string &c, uint64_t t, double x, double y, double th) {
  geometry_msgs::TransformStamped r;
  tf::transformStampedTFToMsg(tf::StampedTransform{tf::Transform{tf::createQuaternionFromRPY(0, 0, th), tf::Vector3{x, y, 0}}, ros::Time::from_ns(t), f, c}, r);
  return r;
}
} // namespace

FAMILY(bag, 1500, 40000) {
  // odometry: a path in time; laser: mounted with an offset
  std::string sl = rng.chance(0.5) ? "/" : ""; // old recordings have slashes
  std::string odom = rng.pick(std::vector<std::string>{"odom", "odom_combined"});
  struct K { uint64_t t; double x, y, th; };
  std::vector<K> path;
  uint64_t t = 100000000000ull + rng.below(1000000000);
  double x = 0, y = 0, th = rng.uni(-3, 3);
  bool slow = rng.chance(0.15); // minutes
  if (slow) { count("minutes_long_bags"); }
  for (int i = 0, n = rng.range(2, 25); i < n; ++i) {
    path.push_back({t, x, y, th});
    t += 1000000 + rng.below(slow ? 20000000000ull : rng.chance(0.1) ? 900000000 : 100000000);
    x += rng.uni(-1, 1); y += rng.uni(-1, 1); th += rng.uni(-1, 1);
  }
  double lx = rng.uni(-1, 1), ly = rng.uni(-1, 1), lth = rng.uni(-3, 3);
  struct Ev { uint64_t arrival; int kind, i; };
  std::vector<Ev> evs;
  uint64_t last_tf = 0;
  std::vector<uint64_t> tf_arr;
  for (size_t i = 0; i < path.size(); ++i) {
    last_tf = std::max(last_tf + 1, path[i].t + (rng.chance(0.3) ? rng.below(200000000) : 0)); // may be late, never reordered
    evs.push_back({last_tf, 0, (int)i});
  }
  struct S { uint64_t t; bool has; double x, y, th; };
  std::vector<S> scans;
  uint64_t from = path.front().t - rng.below(300000000), till = path.back().t + rng.below(300000000), last_scan = 0;
  int ns = rng.range(1, 30);
  std::vector<uint64_t> times;
  for (int i = 0; i < ns; ++i) { times.push_back(rng.chance(0.1) ? rng.pick(path).t : from + rng.below(till - from + 1)); }
  std::sort(times.begin(), times.end());
  for (int i = 0; i < ns; ++i) {
    S s{times[i], path.front().t <= times[i] && times[i] <= path.back().t, 0, 0, 0};
    if (s.has) {
      size_t j = 0; while (j + 2 < path.size() && path[j + 1].t < s.t) { ++j; }
      double k = double(s.t - path[j].t) / double(path[j + 1].t - path[j].t);
      double dth = wrap(path[j + 1].th - path[j].th);
      double bx = path[j].x + k * (path[j + 1].x - path[j].x), by = path[j].y + k * (path[j + 1].y - path[j].y), bth = path[j].th + k * dth;
      s.x = bx + lx * std::cos(bth) - ly * std::sin(bth); s.y = by + lx * std::sin(bth) + ly * std::cos(bth); s.th = bth + lth;
    }
    scans.push_back(s);
    last_scan = std::max(last_scan + 1, s.t + (rng.chance(0.3) ? rng.below(200000000) : 0));
    evs.push_back({last_scan, 1, i});
  }
  // a disagreeing transform which is to be ignored
  bool ign = rng.chance(0.5);
  if (ign) { for (int i = rng.range(1, 6); 0 < i; --i) { evs.push_back({from + rng.below(till - from), 2, 0}); } }
  for (int i = rng.range(0, 4); 0 < i; --i) { evs.push_back({from + rng.below(till - from), 3, i}); } // another topic
  std::stable_sort(evs.begin(), evs.end(), [](const Ev &a, const Ev &b) { return a.arrival < b.arrival; });
  if (rng.chance(0.1)) { std::stable_partition(evs.begin(), evs.end(), [](const Ev &e) { return e.kind == 1; }); count("all_scans_first"); }
  ros_stub::BagData bag;
  bool arm_seen = false;
  for (auto &e : evs) {
    rosbag::MessageInstance mi; mi.time = ros::Time::from_ns(e.arrival);
    if (e.kind == 0 || e.kind == 2) {
      mi.topic = "/tf"; mi.tfm = boost::make_shared<tf::tfMessage>();
      auto &v = mi.tfm->transforms;
      if (e.kind == 0) {
        auto &p = path[e.i];
        v.push_back(ts(sl + odom, sl + "base", p.t, p.x, p.y, p.th));
        v.push_back(ts(sl + "base", sl + "laser", p.t, lx, ly, lth));
        if (rng.chance(0.5)) { v.push_back(ts(sl + "base", sl + "camera", p.t, 1, 1, 1)); }
        if (ign && rng.chance(0.2)) { v.insert(v.begin() + rng.below(v.size() + 1), ts("/fake", "/laser", p.t, 50, 50, 2)); count("ignored_in_company"); }
        if (rng.chance(0.1)) { // one that nobody can use (about itself, of an unnamed frame, or long out of date), in company
          auto u = rng.below(3);
          v.insert(v.begin() + rng.below(v.size() + 1), u == 0 ? ts(sl + "arm", sl + "arm", p.t, 1, 1, 1) : u == 1 ? ts(sl + "arm", "", p.t, 1, 1, 1)
                                                                   : ts(sl + "base", sl + "arm", p.t - (arm_seen ? 40000000000ull : 0), 1, 1, 1));
          if (u == 2) { arm_seen = true; }
          count("unusable_transforms_in_company");
        }
        if (rng.chance(0.3)) { rng.shuffle(v); }
      } else { v.push_back(ts("/fake", "/laser", e.arrival, 50, 50, 2)); }
    } else if (e.kind == 1) {
      mi.topic = "/base_scan"; mi.scan = boost::make_shared<Scan>();
      mi.scan->header.seq = e.i; mi.scan->header.stamp = ros::Time::from_ns(scans[e.i].t); mi.scan->header.frame_id = sl + "laser";
    } else {
      mi.topic = "/tilt_scan"; mi.scan = boost::make_shared<Scan>();
      mi.scan->header.seq = 1000; mi.scan->header.stamp = ros::Time::from_ns(path[0].t); mi.scan->header.frame_id = sl + "laser";
    }
    bag.push_back(mi);
  }
  ros_stub::bags()["b"] = bag;
  Mute mute;
  std::vector<int> want, got;
  for (int i = 0; i < ns; ++i) { if (scans[i].has) { want.push_back(i); } else { count("bag_messages_without_transform"); } }
  {
    BagTopicWithTransform<Scan> b{"b", "/base_scan", "/tf", odom};
    if (ign) {
      MapPropertiesProvider props; props.set_property("in/odometry/ros/tf/ignore", "map-odom:fake-laser");
      b.set_tf_ignores(tf_ignored_transforms(props));
      count("ignoring_bags");
    }
    while (b.extract_next_msg()) {
      VF_CHECK(got.size() <= want.size(), "bag-too-many", got.size());
      int i = b.msg()->header.seq;
      got.push_back(i);
      VF_CHECK(i < ns, "bag-other-topic", i);
      auto &s = scans[i]; auto &g = b.transform();
      VF_CHECK(b.timestamp().toNSec() == s.t, "bag-time", i);
      if (!s.has) { continue; }
      VF_CHECK(near(g.getOrigin().x(), s.x, 1e-7) && near(g.getOrigin().y(), s.y, 1e-7) && std::abs(wrap(tf::getYaw(g.getRotation()) - s.th)) < 1e-7,
               "bag-transform", "scan " << i << " has " << g.getOrigin().x() << " " << g.getOrigin().y() << " " << tf::getYaw(g.getRotation()) << " want "
               << s.x << " " << s.y << " " << s.th);
      count("bag_messages_delivered");
    }
    VF_CHECK(!b.extract_next_msg(), "bag-goes-on", "a message after the end");
  }
  std::ostringstream w; w << "delivered"; for (int g : got) { w << " " << g; }
  w << ", with a transform are"; for (int g : want) { w << " " << g; }
  VF_CHECK(got == want, "bag-delivery", w.str());
  eval(); distinct(Hash().add(from).add(till).add(ns));
  if (rng.chance(0.002)) { sample(w.str()); }
}
VF_MAIN
