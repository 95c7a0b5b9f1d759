// Stand-ins for the parts of ROS used by src/ros. They keep the documented semantics (time arithmetic, transform algebra
// and interpolation, exceptions and their texts) and record what is published; nothing here comes from the code under test.
#ifndef VF_ROS_STUB_H
#define VF_ROS_STUB_H
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>

#define ROS_ERROR(...) do { ::ros_stub::errors()++; } while (0)
#define ROS_WARN(...) do { } while (0)
#define ROS_INFO(...) do { } while (0)
#define ROS_DEBUG(...) do { } while (0)
#define ROS_FATAL(...) do { ::ros_stub::errors()++; } while (0)
#define ROS_ERROR_STREAM(x) do { std::ostringstream ros_os; ros_os << x; ::ros_stub::errors()++; } while (0)
#define ROS_WARN_STREAM(x) do { std::ostringstream ros_os; ros_os << x; } while (0)
#define ROS_INFO_STREAM(x) do { std::ostringstream ros_os; ros_os << x; } while (0)
#define ROS_ERROR_THROTTLE(r, ...) do { ::ros_stub::errors()++; } while (0)
#define ROS_WARN_THROTTLE(r, ...) do { } while (0)

namespace ros_stub {
inline std::atomic<int> &errors() { static std::atomic<int> n{0}; return n; }
inline std::atomic<bool> &ok_flag() { static std::atomic<bool> f{true}; return f; }
inline std::atomic<uint64_t> &clock_ns() { static std::atomic<uint64_t> t{1000000000ull}; return t; }
inline std::atomic<int> &rate_us() { static std::atomic<int> t{0}; return t; }
inline std::function<void()> &on_spin() { static std::function<void()> f; return f; }
struct Param { int kind = 0; std::string s; double d = 0; int i = 0; bool b = false; }; // 0 unset, 1 str, 2 dbl, 3 int, 4 bool
inline std::map<std::string, Param> &params() { static std::map<std::string, Param> p; return p; }
} // namespace ros_stub

namespace ros {
struct Duration {
  int64_t ns = 0;
  Duration() {}
  explicit Duration(double s) : ns{(int64_t)std::llround(s * 1e9)} {}
  Duration(int32_t s, int32_t n) : ns{s * 1000000000ll + n} {}
  double toSec() const { return ns * 1e-9; }
  int64_t toNSec() const { return ns; }
  bool isZero() const { return !ns; }
  Duration operator+(const Duration &o) const { Duration d; d.ns = ns + o.ns; return d; }
  Duration operator-(const Duration &o) const { Duration d; d.ns = ns - o.ns; return d; }
  Duration operator-() const { Duration d; d.ns = -ns; return d; }
  Duration operator*(double k) const { return Duration{toSec() * k}; }
  bool operator!=(const Duration &o) const { return ns != o.ns; }
  bool operator<(const Duration &o) const { return ns < o.ns; }
  bool operator>(const Duration &o) const { return o.ns < ns; }
  bool operator<=(const Duration &o) const { return ns <= o.ns; }
  bool operator>=(const Duration &o) const { return o.ns <= ns; }
  bool operator==(const Duration &o) const { return ns == o.ns; }
  bool sleep() const { std::this_thread::yield(); return true; }
};
struct Time {
  uint32_t sec = 0, nsec = 0;
  Time() {}
  Time(uint32_t s, uint32_t n) : sec{s + n / 1000000000u}, nsec{n % 1000000000u} {}
  explicit Time(double t) { auto n = (uint64_t)std::llround(t * 1e9); sec = n / 1000000000ull; nsec = n % 1000000000ull; }
  static Time from_ns(uint64_t n) { Time t; t.sec = n / 1000000000ull; t.nsec = n % 1000000000ull; return t; }
  uint64_t toNSec() const { return sec * 1000000000ull + nsec; }
  double toSec() const { return sec + 1e-9 * nsec; }
  static Time now() { return from_ns(ros_stub::clock_ns().load(std::memory_order_relaxed)); }
  static void init() {}
  Duration operator-(const Time &o) const { Duration d; d.ns = (int64_t)toNSec() - (int64_t)o.toNSec(); return d; }
  Time operator+(const Duration &d) const { return from_ns(toNSec() + d.ns); }
  Time operator-(const Duration &d) const { return from_ns(toNSec() - d.ns); }
  Time &operator+=(const Duration &d) { return *this = *this + d; }
  Time &operator-=(const Duration &d) { return *this = *this - d; }
  Time &fromNSec(uint64_t n) { return *this = from_ns(n); }
  Time &fromSec(double t) { return *this = Time{t}; }
  static bool waitForValid() { return true; }
  bool isZero() const { return !sec && !nsec; }
  bool operator<(const Time &o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Time &o) const { return o < *this; }
  bool operator<=(const Time &o) const { return !(o < *this); }
  bool operator>=(const Time &o) const { return !(*this < o); }
  bool operator==(const Time &o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const Time &o) const { return !(*this == o); }
};
inline std::ostream &operator<<(std::ostream &os, const Time &t) {
  char b[32]; std::snprintf(b, sizeof(b), "%u.%09u", t.sec, t.nsec); return os << b;
}
inline std::ostream &operator<<(std::ostream &os, const Duration &d) { return os << d.toSec(); }
struct Rate {
  explicit Rate(double) {}
  explicit Rate(const Duration &) {}
  void reset() {}
  bool sleep() {
    int us = ros_stub::rate_us().load(std::memory_order_relaxed);
    if (us) { std::this_thread::sleep_for(std::chrono::microseconds(us)); } else { std::this_thread::yield(); }
    return true;
  }
};
inline bool ok() { return ros_stub::ok_flag().load(std::memory_order_relaxed); }
inline void shutdown() { ros_stub::ok_flag().store(false, std::memory_order_relaxed); }
inline void init(int &, char **, const std::string &) {}
inline void spin() { if (ros_stub::on_spin()) { ros_stub::on_spin()(); } }
inline void spinOnce() { if (ros_stub::on_spin()) { ros_stub::on_spin()(); } }

namespace param {
inline void set(const std::string &k, const std::string &v) { ros_stub::Param p; p.kind = 1; p.s = v; ros_stub::params()[k] = p; }
inline void set(const std::string &k, const char *v) { set(k, std::string(v)); }
inline void set(const std::string &k, double v) { ros_stub::Param p; p.kind = 2; p.d = v; ros_stub::params()[k] = p; }
inline void set(const std::string &k, int v) { ros_stub::Param p; p.kind = 3; p.i = v; ros_stub::params()[k] = p; }
inline void set(const std::string &k, bool v) { ros_stub::Param p; p.kind = 4; p.b = v; ros_stub::params()[k] = p; }
// the type has to agree; the exception is that an int is fine where a double is asked for (and vice versa)
inline bool get(const ros_stub::Param &p, std::string &v) { if (p.kind != 1) { return false; } v = p.s; return true; }
inline bool get(const ros_stub::Param &p, double &v) {
  if (p.kind == 2) { v = p.d; return true; }
  if (p.kind == 3) { v = p.i; return true; }
  return false;
}
inline bool get(const ros_stub::Param &p, int &v) {
  if (p.kind == 3) { v = p.i; return true; }
  if (p.kind == 2) { v = (int)(p.d + (p.d < 0 ? -0.5 : 0.5)); return true; }
  return false;
}
inline bool get(const ros_stub::Param &p, bool &v) { if (p.kind != 4) { return false; } v = p.b; return true; }
template <typename T> void param(const std::string &k, T &v, const T &dflt) {
  auto it = ros_stub::params().find(k);
  T r;
  if (it != ros_stub::params().end() && get(it->second, r)) { v = r; } else { v = dflt; }
}
} // namespace param
} // namespace ros

namespace std_msgs { struct Header { uint32_t seq = 0; ros::Time stamp; std::string frame_id; }; }

namespace ros { namespace message_traits {
template <typename M> struct FrameId { static std::string value(const M &m) { return m.header.frame_id; } };
template <typename M> struct TimeStamp { static ros::Time value(const M &m) { return m.header.stamp; } };
}} // namespace ros::message_traits

namespace sensor_msgs {
struct LaserScan {
  std_msgs::Header header;
  float angle_min = 0, angle_max = 0, angle_increment = 0, time_increment = 0, scan_time = 0, range_min = 0, range_max = 0;
  std::vector<float> ranges, intensities;
  using Ptr = boost::shared_ptr<LaserScan>;
  using ConstPtr = boost::shared_ptr<LaserScan const>;
};
} // namespace sensor_msgs

namespace geometry_msgs {
struct Point { double x = 0, y = 0, z = 0; };
struct Vector3 { double x = 0, y = 0, z = 0; };
struct Quaternion { double x = 0, y = 0, z = 0, w = 0; };
struct Pose { Point position; Quaternion orientation; };
struct PoseStamped { std_msgs::Header header; Pose pose; };
struct Transform { Vector3 translation; Quaternion rotation; };
struct TransformStamped { std_msgs::Header header; std::string child_frame_id; Transform transform; };
} // namespace geometry_msgs

namespace nav_msgs {
struct MapMetaData { ros::Time map_load_time; float resolution = 0; uint32_t width = 0, height = 0; geometry_msgs::Pose origin; };
struct OccupancyGrid {
  std_msgs::Header header; MapMetaData info; std::vector<int8_t> data;
  using Ptr = boost::shared_ptr<OccupancyGrid>;
  using ConstPtr = boost::shared_ptr<OccupancyGrid const>;
};
struct Path { std_msgs::Header header; std::vector<geometry_msgs::PoseStamped> poses; };
} // namespace nav_msgs

namespace ros {
struct SubBase { virtual ~SubBase() {} };
} // namespace ros
namespace ros_stub {
// type-erased record of published messages: topic -> list
template <typename M> std::map<std::string, std::vector<M>> &published() {
  static std::map<std::string, std::vector<M>> p; return p;
}
template <typename M> std::map<std::string, std::vector<std::function<void(boost::shared_ptr<M>)>>> &subscribers() {
  static std::map<std::string, std::vector<std::function<void(boost::shared_ptr<M>)>>> s; return s;
}
inline std::function<void()> &on_publish() { static std::function<void()> f; return f; }
template <typename M> void deliver(const std::string &topic, boost::shared_ptr<M> m) {
  auto cbs = subscribers<M>()[topic];
  for (auto &cb : cbs) { cb(m); }
}
} // namespace ros_stub
namespace ros {
struct Publisher {
  std::string topic;
  template <typename M> void publish(const M &m) const {
    ros_stub::published<M>()[topic].push_back(m);
    if (ros_stub::on_publish()) { ros_stub::on_publish()(); }
  }
  template <typename M> void publish(const boost::shared_ptr<M> &m) const { publish(*m); }
};
struct Subscriber {};
struct NodeHandle {
  template <typename M> Publisher advertise(const std::string &t, uint32_t, bool = false) { return Publisher{t}; }
  template <typename M> Subscriber subscribe(const std::string &t, uint32_t, void (*cb)(boost::shared_ptr<M>)) {
    ros_stub::subscribers<M>()[t].push_back(cb); return {};
  }
  bool ok() const { return ros::ok(); }
};
} // namespace ros

namespace tf {
struct TransformException : std::runtime_error { using std::runtime_error::runtime_error; };
struct ExtrapolationException : TransformException { using TransformException::TransformException; };
struct LookupException : TransformException { using TransformException::TransformException; };
struct ConnectivityException : TransformException { using TransformException::TransformException; };
struct InvalidArgument : TransformException { using TransformException::TransformException; };

class Vector3 {
  double v[3];
public:
  Vector3() { v[0] = v[1] = v[2] = std::numeric_limits<double>::quiet_NaN(); } // the real one leaves garbage
  Vector3(double x, double y, double z) { v[0] = x; v[1] = y; v[2] = z; }
  double x() const { return v[0]; } double y() const { return v[1]; } double z() const { return v[2]; }
  double getX() const { return v[0]; } double getY() const { return v[1]; } double getZ() const { return v[2]; }
  void setValue(double x, double y, double z) { v[0] = x; v[1] = y; v[2] = z; }
  double length2() const { return v[0] * v[0] + v[1] * v[1] + v[2] * v[2]; }
  double length() const { return std::sqrt(length2()); }
  Vector3 operator-() const { return {-v[0], -v[1], -v[2]}; }
  Vector3 &operator+=(const Vector3 &o) { return *this = *this + o; }
  Vector3 &operator-=(const Vector3 &o) { return *this = *this - o; }
  double operator[](int i) const { return v[i]; }
  double &operator[](int i) { return v[i]; }
  void setX(double a) { v[0] = a; } void setY(double a) { v[1] = a; } void setZ(double a) { v[2] = a; }
  Vector3 operator+(const Vector3 &o) const { return {v[0] + o.v[0], v[1] + o.v[1], v[2] + o.v[2]}; }
  Vector3 operator-(const Vector3 &o) const { return {v[0] - o.v[0], v[1] - o.v[1], v[2] - o.v[2]}; }
  Vector3 operator*(double k) const { return {v[0] * k, v[1] * k, v[2] * k}; }
};
class Quaternion {
  double q[4];
public:
  Quaternion() { for (auto &a : q) { a = std::numeric_limits<double>::quiet_NaN(); } }
  Quaternion(double x, double y, double z, double w) { q[0] = x; q[1] = y; q[2] = z; q[3] = w; }
  double x() const { return q[0]; } double y() const { return q[1]; } double z() const { return q[2]; } double w() const { return q[3]; }
  double getX() const { return q[0]; } double getY() const { return q[1]; } double getZ() const { return q[2]; } double getW() const { return q[3]; }
  void setRPY(double r, double p, double y) {
    double cr = std::cos(r / 2), sr = std::sin(r / 2), cp = std::cos(p / 2), sp = std::sin(p / 2), cy = std::cos(y / 2), sy = std::sin(y / 2);
    q[0] = sr * cp * cy - cr * sp * sy; q[1] = cr * sp * cy + sr * cp * sy; q[2] = cr * cp * sy - sr * sp * cy; q[3] = cr * cp * cy + sr * sp * sy;
  }
  Quaternion operator*(const Quaternion &b) const {
    return {q[3] * b.q[0] + q[0] * b.q[3] + q[1] * b.q[2] - q[2] * b.q[1], q[3] * b.q[1] + q[1] * b.q[3] + q[2] * b.q[0] - q[0] * b.q[2],
            q[3] * b.q[2] + q[2] * b.q[3] + q[0] * b.q[1] - q[1] * b.q[0], q[3] * b.q[3] - q[0] * b.q[0] - q[1] * b.q[1] - q[2] * b.q[2]};
  }
  static Quaternion getIdentity() { return {0, 0, 0, 1}; }
  double length2() const { return q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]; }
  Quaternion &normalize() { double l = std::sqrt(length2()); for (auto &a : q) { a /= l; } return *this; }
  Quaternion inverse() const { return {-q[0], -q[1], -q[2], q[3]}; }
  Vector3 rotate(const Vector3 &v) const {
    auto r = *this * Quaternion{v.x(), v.y(), v.z(), 0} * inverse();
    return {r.x(), r.y(), r.z()};
  }
};
inline Quaternion createQuaternionFromRPY(double r, double p, double y) { Quaternion q; q.setRPY(r, p, y); return q; }
inline Quaternion createQuaternionFromYaw(double y) { return createQuaternionFromRPY(0, 0, y); }
inline double getYaw(const Quaternion &q) {
  return std::atan2(2 * (q.w() * q.z() + q.x() * q.y()), 1 - 2 * (q.y() * q.y() + q.z() * q.z()));
}
struct Matrix3x3 {
  Quaternion q;
  explicit Matrix3x3(const Quaternion &a) : q{a} {}
  void getRPY(double &r, double &p, double &y) const {
    r = std::atan2(2 * (q.w() * q.x() + q.y() * q.z()), 1 - 2 * (q.x() * q.x() + q.y() * q.y()));
    p = std::asin(std::max(-1.0, std::min(1.0, 2 * (q.w() * q.y() - q.z() * q.x()))));
    y = getYaw(q);
  }
  void getRotation(Quaternion &o) const { o = q; }
};
class Transform {
  Quaternion _q; Vector3 _o;
public:
  Transform() {}
  explicit Transform(const Quaternion &q, const Vector3 &o = Vector3{0, 0, 0}) : _q{q}, _o{o} {}
  Vector3 &getOrigin() { return _o; }
  const Vector3 &getOrigin() const { return _o; }
  Quaternion getRotation() const { return _q; }
  void setOrigin(const Vector3 &o) { _o = o; }
  void setRotation(const Quaternion &q) { _q = q; }
  Matrix3x3 getBasis() const { return Matrix3x3{_q}; }
  static Transform getIdentity() { return Transform{Quaternion{0, 0, 0, 1}}; }
  Vector3 operator()(const Vector3 &v) const { return *this * v; }
  Transform &operator*=(const Transform &b) { return *this = *this * b; }
  Transform inverseTimes(const Transform &b) const { return inverse() * b; }
  void mult(const Transform &a, const Transform &b) { *this = a * b; }
  void setIdentity() { _q = {0, 0, 0, 1}; _o = {0, 0, 0}; }
  Transform operator*(const Transform &b) const { return Transform{_q * b._q, _o + _q.rotate(b._o)}; }
  Transform inverse() const { auto i = _q.inverse(); return Transform{i, i.rotate(_o) * -1}; }
  Vector3 operator*(const Vector3 &v) const { return _o + _q.rotate(v); }
};
using Pose = Transform;
using Point = Vector3;
inline Quaternion createIdentityQuaternion() { return {0, 0, 0, 1}; }
inline geometry_msgs::Quaternion createQuaternionMsgFromYaw(double y) {
  auto q = createQuaternionFromYaw(y); geometry_msgs::Quaternion r; r.x = q.x(); r.y = q.y(); r.z = q.z(); r.w = q.w(); return r;
}
inline double getYaw(const geometry_msgs::Quaternion &q) { return getYaw(Quaternion{q.x, q.y, q.z, q.w}); }
struct StampedTransform : Transform {
  ros::Time stamp_; std::string frame_id_, child_frame_id_;
  StampedTransform() {}
  StampedTransform(const Transform &t, const ros::Time &s, const std::string &f, const std::string &c)
    : Transform{t}, stamp_{s}, frame_id_{f}, child_frame_id_{c} {}
  void setData(const Transform &t) { *static_cast<Transform *>(this) = t; }
};
struct tfMessage { std::vector<geometry_msgs::TransformStamped> transforms; };
inline void transformStampedMsgToTF(const geometry_msgs::TransformStamped &m, StampedTransform &t) {
  auto &r = m.transform.rotation; auto &o = m.transform.translation;
  t = StampedTransform{Transform{Quaternion{r.x, r.y, r.z, r.w}, Vector3{o.x, o.y, o.z}}, m.header.stamp, m.header.frame_id, m.child_frame_id};
}
inline void transformStampedTFToMsg(const StampedTransform &t, geometry_msgs::TransformStamped &m) {
  auto q = t.getRotation(); auto &o = t.getOrigin();
  m.transform.rotation.x = q.x(); m.transform.rotation.y = q.y(); m.transform.rotation.z = q.z(); m.transform.rotation.w = q.w();
  m.transform.translation.x = o.x(); m.transform.translation.y = o.y(); m.transform.translation.z = o.z();
  m.header.stamp = t.stamp_; m.header.frame_id = t.frame_id_; m.child_frame_id = t.child_frame_id_;
}

// a tree of frames with interpolation in time
class Transformer {
  struct Edge { std::string parent; std::map<uint64_t, Transform> at; };
  std::map<std::string, Edge> _edges; // by child
  std::map<std::string, bool> _frames;
  uint64_t _cache_ns;
  static std::string strip(const std::string &f) { return !f.empty() && f[0] == '/' ? f.substr(1) : f; }
  static Transform mix(const Transform &a, const Transform &b, double k) {
    auto qa = a.getRotation(), qb = b.getRotation();
    double d = qa.x() * qb.x() + qa.y() * qb.y() + qa.z() * qb.z() + qa.w() * qb.w();
    double s = d < 0 ? -1 : 1, th = std::acos(std::min(1.0, std::abs(d)));
    double ka = 1 - k, kb = k;
    if (1e-9 < th) { ka = std::sin((1 - k) * th) / std::sin(th); kb = std::sin(k * th) / std::sin(th); }
    kb *= s;
    Quaternion q{qa.x() * ka + qb.x() * kb, qa.y() * ka + qb.y() * kb, qa.z() * ka + qb.z() * kb, qa.w() * ka + qb.w() * kb};
    return Transform{q, a.getOrigin() * (1 - k) + b.getOrigin() * k};
  }
  static Transform value(const Edge &e, uint64_t t) {
    std::ostringstream m;
    m << "Lookup would require extrapolation ";
    if (e.at.size() == 1) {
      if (e.at.begin()->first == t) { return e.at.begin()->second; }
      m << "at time " << t * 1e-9 << ", but only time " << e.at.begin()->first * 1e-9 << " is in the buffer";
      throw ExtrapolationException{m.str()};
    }
    if (t < e.at.begin()->first) {
      m << "into the past.  Requested time " << t * 1e-9 << " but the earliest data is at time " << e.at.begin()->first * 1e-9;
      throw ExtrapolationException{m.str()};
    }
    if (e.at.rbegin()->first < t) {
      m << "into the future.  Requested time " << t * 1e-9 << " but the latest data is at time " << e.at.rbegin()->first * 1e-9;
      throw ExtrapolationException{m.str()};
    }
    auto hi = e.at.lower_bound(t);
    if (hi->first == t) { return hi->second; }
    auto lo = std::prev(hi);
    return mix(lo->second, hi->second, double(t - lo->first) / double(hi->first - lo->first));
  }
  std::vector<std::string> path(std::string f) const {
    std::vector<std::string> p{f};
    for (auto it = _edges.find(f); it != _edges.end() && p.size() < 1000; it = _edges.find(p.back())) { p.push_back(it->second.parent); }
    return p;
  }
public:
  explicit Transformer(bool = true, ros::Duration cache = ros::Duration{10.0}) : _cache_ns{(uint64_t)cache.ns} {}
  bool setTransform(const StampedTransform &t, const std::string & = "") {
    auto c = strip(t.child_frame_id_), p = strip(t.frame_id_);
    if (c.empty() || p.empty() || c == p) { return false; }
    _frames[c] = _frames[p] = true;
    auto &e = _edges[c];
    if (e.parent != p) { e.parent = p; e.at.clear(); }
    uint64_t ns = t.stamp_.toNSec();
    if (!e.at.empty() && ns + _cache_ns < e.at.rbegin()->first) { return false; }
    e.at[ns] = t;
    while (e.at.begin()->first + _cache_ns < e.at.rbegin()->first) { e.at.erase(e.at.begin()); }
    return true;
  }
  void lookupTransform(const std::string &target_, const std::string &source_, const ros::Time &time, StampedTransform &out) const {
    auto target = strip(target_), source = strip(source_);
    for (auto &f : {target, source}) {
      if (!_frames.count(f)) { throw LookupException{"\"" + f + "\" passed to lookupTransform does not exist. "}; }
    }
    auto ps = path(source), pt = path(target);
    if (ps.back() != pt.back()) {
      throw ConnectivityException{"Could not find a connection between '" + target + "' and '" + source + "' because they are not part of the same tree."};
    }
    while (1 < ps.size() && 1 < pt.size() && ps[ps.size() - 2] == pt[pt.size() - 2]) { ps.pop_back(); pt.pop_back(); }
    auto up = [&](const std::vector<std::string> &p) {
      Transform r{Quaternion{0, 0, 0, 1}};
      for (size_t i = 0; i + 1 < p.size(); ++i) { r = value(_edges.at(p[i]), time.toNSec()) * r; }
      return r;
    };
    auto s = up(ps), t = up(pt);
    out = StampedTransform{t.inverse() * s, time, target_, source_};
  }
  bool waitForTransform(const std::string &, const std::string &, const ros::Time &, const ros::Duration &) const { return true; }
};
} // namespace tf

namespace ros_stub {
// what the listeners know: tests put a resolver here
using Lookup = std::function<void(const std::string &, const std::string &, const ros::Time &, tf::StampedTransform &)>;
inline Lookup &tf_lookup() { static Lookup l; return l; }
using Sent = std::function<void(const tf::StampedTransform &)>;
inline Sent &tf_sent() { static Sent s; return s; }
} // namespace ros_stub

namespace tf {
struct TransformBroadcaster {
  void sendTransform(const StampedTransform &t) { if (ros_stub::tf_sent()) { ros_stub::tf_sent()(t); } }
  void sendTransform(const geometry_msgs::TransformStamped &m) { StampedTransform t; transformStampedMsgToTF(m, t); sendTransform(t); }
  void sendTransform(const std::vector<StampedTransform> &ts) { for (auto &t : ts) { sendTransform(t); } }
};
struct TransformListener {
  explicit TransformListener(ros::Duration = ros::Duration{10.0}) {}
  void lookupTransform(const std::string &t, const std::string &s, const ros::Time &time, StampedTransform &out) const {
    if (!ros_stub::tf_lookup()) { throw LookupException{"frame does not exist"}; }
    ros_stub::tf_lookup()(t, s, time, out);
  }
  bool waitForTransform(const std::string &, const std::string &, const ros::Time &, const ros::Duration &) const { return true; }
};
} // namespace tf

namespace message_filters {
template <typename M> struct Subscriber {
  std::string topic;
  Subscriber(ros::NodeHandle, const std::string &t, uint32_t) : topic{t} {}
};
} // namespace message_filters

namespace tf {
template <typename M> struct MessageFilter {
  std::string topic;
  template <typename F> MessageFilter(F &f, TransformListener &, const std::string &, uint32_t) : topic{f.topic} {}
  ~MessageFilter() { if (_reg) { ros_stub::subscribers<M>()[topic].clear(); } }
  template <typename T, typename P> void registerCallback(void (T::*cb)(P), T *t) {
    _reg = true;
    ros_stub::subscribers<M>()[topic].push_back([t, cb](boost::shared_ptr<M> m) { (t->*cb)(m); });
  }
private:
  bool _reg = false;
};
} // namespace tf

// a bag is a list of messages registered under its name
namespace rosbag {
struct MessageInstance {
  std::string topic; ros::Time time;
  boost::shared_ptr<sensor_msgs::LaserScan> scan; boost::shared_ptr<tf::tfMessage> tfm;
  std::string getTopic() const { return topic; }
  template <typename M> boost::shared_ptr<M> instantiate() const;
};
template <> inline boost::shared_ptr<sensor_msgs::LaserScan> MessageInstance::instantiate() const { return scan; }
template <> inline boost::shared_ptr<tf::tfMessage> MessageInstance::instantiate() const { return tfm; }
} // namespace rosbag
namespace ros_stub {
using BagData = std::vector<rosbag::MessageInstance>;
inline std::map<std::string, BagData> &bags() { static std::map<std::string, BagData> b; return b; }
BagData load_bag(const std::string &fname); // only for programs which read bag files
} // namespace ros_stub
namespace rosbag {
struct BagException : std::runtime_error { using std::runtime_error::runtime_error; };
struct Bag {
  std::string name; bool open = true;
  explicit Bag(const std::string &n) : name{n} {
#ifdef VF_BAG_FILES
    ros_stub::bags()[n] = ros_stub::load_bag(n);
#endif
    if (!ros_stub::bags().count(n)) { throw BagException{"no such bag " + n}; }
  }
  void close() { open = false; }
};
struct TopicQuery { std::vector<std::string> topics; explicit TopicQuery(const std::vector<std::string> &t) : topics{t} {} };
struct View {
  std::shared_ptr<ros_stub::BagData> d = std::make_shared<ros_stub::BagData>();
  using const_iterator = ros_stub::BagData::const_iterator;
  using iterator = const_iterator;
  View(const Bag &b, const TopicQuery &q) {
    for (auto &m : ros_stub::bags()[b.name]) {
      if (std::find(q.topics.begin(), q.topics.end(), m.topic) != q.topics.end()) { d->push_back(m); }
    }
  }
  const_iterator begin() const { return d->begin(); }
  const_iterator end() const { return d->end(); }
};
} // namespace rosbag
#endif
