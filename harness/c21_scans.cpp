// C21: scans survive text, polar/cartesian conversion, moving and cached trigonometry.
#include "common.h"
#include "core/math_utils.h"
#include "core/geometry_utils.h"
#include "core/trigonometry_utils.h"
#include "core/states/sensor_data.h"
using namespace vf;
REQUIRE_EVENTS("text_roundtrips", 2000)
REQUIRE_EVENTS("damaged_texts", 4000)
REQUIRE_EVENTS("points_converted", 20000)
REQUIRE_EVENTS("bearings_looked_up", 50000)
REQUIRE_EVENTS("last_bearings", 500)
REQUIRE_EVENTS("sectors_changed_in_one_number", 500)

namespace {
double wrap(double a) { return std::remainder(a, 2 * M_PI); }
ScanPoint2D rnd_point(Rng &rng) {
  bool occ = rng.chance(0.7);
  double r = rng.chance(0.1) ? rng.pickd({0, 1e-5, 123456.75, 1e-12, 5e7}) : rng.uni(0, 40);
  double a = rng.chance(0.2) ? rng.pickd({0, M_PI, -M_PI, M_PI / 2, -M_PI / 2, 1e-9, 3 * M_PI}) : rng.uni(-2 * M_PI, 2 * M_PI);
  if (rng.chance(0.3)) { return ScanPoint2D::make_cartesian({r * std::cos(a), r * std::sin(a)}, occ); }
  return ScanPoint2D::make_polar(r, a, occ);
}
std::string pt(const ScanPoint2D &p) {
  std::ostringstream o; o << std::setprecision(17) << p.range() << "@" << p.angle() << (p.is_occupied() ? "o" : "f"); return o.str();
}
} // namespace

FAMILY(text, 2500, 40000) {
  LaserScan2D s;
  for (int i = 0, n = rng.chance(0.1) ? 0 : rng.range(1, rng.chance(0.05) ? 800 : 40); i < n; ++i) { s.points().push_back(rnd_point(rng)); }
  int prec = rng.chance(0.4) ? 6 : rng.range(3, 17);
  std::stringstream io;
  if (prec != 6) { io << std::setprecision(prec); }
  io << s;
  auto text = io.str();
  LaserScan2D r;
  for (int i = 0, n = rng.range(0, 3); i < n; ++i) { r.points().push_back(rnd_point(rng)); } // old content
  io >> r;
  VF_CHECK(!io.fail(), "read-fails", text.substr(0, 200));
  VF_CHECK(r.points().size() == s.points().size(), "text-count", r.points().size() << " points, want " << s.points().size());
  double rel = 5.1 * std::pow(10, -prec) + 1e-15;
  for (size_t i = 0; i < s.points().size(); ++i) {
    auto &a = s.points()[i], &b = r.points()[i];
    VF_CHECK(std::abs(a.range() - b.range()) <= rel * std::abs(a.range()) && std::abs(a.angle() - b.angle()) <= rel * std::abs(a.angle()) &&
             a.is_occupied() == b.is_occupied(), "text-point", "point " << i << ": " << pt(b) << " want " << pt(a));
    distinct(Hash().add(a.range()).add(a.angle()).add(prec));
  }
  // several scans in one stream
  if (rng.chance(0.3)) {
    std::stringstream two; two << std::setprecision(17) << s << r;
    LaserScan2D a, b; two >> a >> b;
    VF_CHECK(!two.fail() && a.points().size() == s.points().size() && b.points().size() == r.points().size(), "text-sequence",
             a.points().size() << " " << b.points().size());
    for (size_t i = 0; i < b.points().size(); ++i) { VF_CHECK(near(b.points()[i].range(), r.points()[i].range(), 1e-15), "text-sequence", "second scan, point " << i); }
  }
  count("text_roundtrips"); eval();
  // damaged copies
  for (int k = 0; k < 4; ++k) {
    auto t = text; std::string how;
    bool trunc = false;
    size_t nl = text.find('\n');
    switch (rng.below(5)) {
    case 0: case 1: t.resize(rng.below(t.size() + 1)); trunc = true; how = "truncated to " + std::to_string(t.size()); break;
    case 2: if (t.size()) { t[rng.below(t.size())] = " x-e.9\n\0,"[rng.below(9)]; how = "one byte"; } break;
    case 3: t = (rng.chance(0.5) ? "18446744073709551615" : rng.chance(0.5) ? "-1" : "99999999999") + t.substr(nl); how = "count"; break;
    default: t.clear(); for (int i = 0, n = rng.range(0, 60); i < n; ++i) { t += (char)(rng.chance(0.6) ? "0123456789 \n.-"[rng.below(14)] : rng.below(256)); } how = "noise"; break;
    }
    std::istringstream is(t); LaserScan2D d;
    is >> d;
    // every point needs three separate tokens of the text
    size_t tokens = 0; { std::istringstream ts(t); std::string w; while (ts >> w) { ++tokens; } }
    VF_CHECK(3 * d.points().size() <= t.size() + 2, "invented-points", how << ": " << d.points().size() << " points from " << t.size() << " bytes");
    if (trunc) {
      bool same_count = nl != std::string::npos && nl < t.size();
      for (size_t i = 0; i < d.points().size(); ++i) {
        VF_CHECK(i < r.points().size() && d.points()[i].range() == r.points()[i].range() && d.points()[i].angle() == r.points()[i].angle() &&
                 d.points()[i].is_occupied() == r.points()[i].is_occupied(), "truncated-points", how << ": point " << i << " " << pt(d.points()[i]));
      }
      if (same_count) { VF_CHECK(is.fail() == (d.points().size() < s.points().size()), "truncated-silently", how << ": " << d.points().size() << " of " << s.points().size() << " points, stream failed: " << is.fail()); }
    } else {
      std::istringstream cs(t); unsigned long long n = 0; cs >> n;
      if (cs && !is.fail()) { VF_CHECK(d.points().size() == n, "short-silently", how << ": " << d.points().size() << " of " << n); }
    }
    count("damaged_texts"); eval();
  }
}

FAMILY(convert, 6000, 200000) {
  auto raw = std::make_shared<RawTrigonometryProvider>();
  for (int i = 0; i < 5; ++i) {
    auto p = rnd_point(rng);
    double tol = 1e-9 * std::max(1.0, p.range());
    double x = p.range() * std::cos(p.angle()), y = p.range() * std::sin(p.angle());
    VF_CHECK(std::abs(p.x() - x) <= tol && std::abs(p.y() - y) <= tol, "polar-cartesian", pt(p) << ": " << p.x() << "," << p.y());
    VF_CHECK(0 <= p.range() && std::abs(std::hypot(p.x(), p.y()) - p.range()) <= tol, "range", pt(p));
    auto c = p.to_cartesian(), q = c.to_polar(), q2 = p.to_polar();
    for (auto *z : {&c, &q, &q2}) {
      VF_CHECK(std::abs(z->range() - p.range()) <= tol && (p.range() < 1e-9 || std::abs(wrap(z->angle() - p.angle())) * p.range() <= 4 * tol) &&
               std::abs(z->x() - x) <= tol && std::abs(z->y() - y) <= tol, "invertible", pt(*z) << " want " << pt(p));
      VF_CHECK(z->is_occupied() == p.is_occupied(), "occupied-flag", pt(*z) << " want " << pt(p));
    }
    // turned and moved
    double th = rng.chance(0.2) ? rng.pickd({0, M_PI, -M_PI / 2, 7}) : rng.uni(-4, 4), dx = rng.uni(-20, 20), dy = rng.uni(-20, 20);
    double wx = x * std::cos(th) - y * std::sin(th), wy = x * std::sin(th) + y * std::cos(th);
    auto at = [&](const Point2D &a, double ex, double ey, const char *n) {
      VF_CHECK(std::abs(a.x - ex) <= 2 * tol + 1e-8 && std::abs(a.y - ey) <= 2 * tol + 1e-8, std::string("move:") + n,
               pt(p) << " turned " << th << " moved " << dx << "," << dy << ": " << a << " want " << ex << "," << ey);
    };
    raw->set_base_angle(th);
    at(p.move_origin(dx, dy, raw), wx + dx, wy + dy, "provider");
    at(p.move_origin({dx, dy}, raw), wx + dx, wy + dy, "provider-point");
    at(p.move_origin(dx, dy, th), wx + dx, wy + dy, "angle");
    at(p.move_origin(dx, dy), x + dx, y + dy, "shift");
    auto tc = p.to_cartesian(th), tp = p.to_cartesian(raw), pm = p.to_polar(dx, dy);
    at({tc.x(), tc.y()}, wx, wy, "to_cartesian-angle"); at({tp.x(), tp.y()}, wx, wy, "to_cartesian-provider");
    at({pm.x(), pm.y()}, x + dx, y + dy, "to_polar-shift");
    VF_CHECK(tc.is_occupied() == p.is_occupied() && tp.is_occupied() == p.is_occupied() && pm.is_occupied() == p.is_occupied(), "occupied-flag", pt(p));
    double dr = rng.uni(0, 3); auto lr = p.to_cartesian(th, dr); // longer beam, same bearing
    at({lr.x(), lr.y()}, (p.range() + dr) * std::cos(p.angle() + th), (p.range() + dr) * std::sin(p.angle() + th), "to_cartesian-range");
    // and back
    auto w = ScanPoint2D::make_cartesian(p.move_origin(dx, dy, th), p.is_occupied());
    auto back = w.to_polar(-dx, -dy).to_cartesian(-th);
    at({back.x(), back.y()}, x, y, "back");
    distinct(Hash().add(x).add(y).add(th)); count("points_converted"); eval();
  }
  // a whole scan
  LaserScan2D s; for (int i = 0, n = rng.chance(0.01) ? rng.range(257, 1200) : rng.range(0, 12); i < n; ++i) { s.points().push_back(rnd_point(rng)); }
  auto s0 = s; double th = 0;
  LaserScan2D c;
  for (int turns = rng.range(1, 4); 0 < turns; --turns) { th = rng.chance(0.3) ? rng.pickd({0, M_PI, -M_PI / 2}) : rng.uni(-4, 4); c = s.to_cartesian(th); }
  VF_CHECK(c.points().size() == s0.points().size() && s.points().size() == s0.points().size(), "scan-count", c.points().size());
  for (size_t i = 0; i < c.points().size(); ++i) {
    auto &a = s0.points()[i], &b = c.points()[i];
    double tol = 1e-8 * std::max(1.0, a.range());
    VF_CHECK(std::abs(b.x() - a.range() * std::cos(a.angle() + th)) <= tol && std::abs(b.y() - a.range() * std::sin(a.angle() + th)) <= tol &&
             a.is_occupied() == b.is_occupied(), "scan-to-cartesian", "point " << i << " turned " << th << ": " << pt(b) << " from " << pt(a));
    VF_CHECK(s.points()[i].range() == a.range() && s.points()[i].angle() == a.angle(), "scan-changed", "point " << i);
  }
  eval();
}

FAMILY(cached, 1500, 30000) {
  CachedTrigonometryProvider own;
  auto sh = std::make_shared<CachedTrigonometryProvider>();
  double last_mn = 0, last_mx = 0, last_inc = 0; int last_n = 0;
  for (int round = 0, rn = rng.range(1, 4); round < rn; ++round) { // reused for several sectors
    int n = rng.chance(0.1) ? rng.range(1000, 3000) : rng.range(1, 400);
    double inc = rng.chance(0.3) ? deg2rad(rng.pickd({0.25, 0.5, 1, 30, 7})) : rng.uni(0.0005, 0.3);
    n = std::min(n, (int)std::ceil(4 * M_PI / inc));
    double mn = rng.chance(0.3) ? -n * inc / 2 : rng.uni(-2 * M_PI, M_PI);
    if (rng.chance(0.2)) { mn = float(mn); inc = float(inc); } // as it comes from a message
    if (round && rng.chance(0.6)) { // a sector which shares something with the previous one
      int k = rng.below(4);
      if (k == 0) { mn = last_mn; inc = last_inc; n = last_n + rng.range(-last_n / 2, last_n); }
      if (k == 1) { mn = last_mn; inc = last_inc * last_n / n; } // the same bounds
      if (k == 2) { inc = last_inc; n = last_n; }
      if (k == 3) { inc = last_inc; n = rng.range(1, last_n); mn = last_mn + (last_n - n) * inc; } // the same end
      n = std::max(1, std::min(n, (int)std::ceil(4 * M_PI / inc)));
      count("related_sectors");
    }
    if (!round && rng.chance(0.15)) { mn = -mn; inc = -inc; count("clockwise_sectors"); }
    double mx = mn + n * inc;
    int single = round && rng.chance(0.4) ? rng.range(1, 3) : 0; // exactly one of the three numbers differs from the last sector
    if (single) {
      mn = last_mn; mx = last_mx; inc = last_inc; n = last_n;
      int k = last_n < 2 ? 0 : rng.range(1, last_n - 1);
      if (single == 1) { mn = last_mn + k * last_inc; n = last_n - k; }
      if (single == 2) { mx = last_mn + (last_n + k) * last_inc; n = last_n + k; }
      if (single == 3) { inc = last_inc / 2; n = 2 * last_n; }
      count("sectors_changed_in_one_number");
    }
    if (!single && rng.chance(0.3)) { mx += rng.uni(0, 0.49) * inc; } // a sector which is not a whole number of steps
    last_mn = mn; last_mx = mx; last_inc = inc; last_n = n;
    own.update(mn, mx, inc); sh->update(mn, mx, inc);
    if (rng.chance(0.3)) { own.update(mn, mx, inc); } // the same sector again
    bool turned = rng.chance(0.8);
    for (int t = 0, tn = rng.range(1, 3); t < tn; ++t) {
      double base = rng.chance(0.2) ? rng.pickd({0, M_PI, -M_PI, 100}) : rng.uni(-7, 7);
      if (turned || round || t) { own.set_base_angle(base); sh->set_base_angle(base); } else { base = 0; }
      auto look = [&](double a) {
        // an absolutely accurate lattice is lost when it's accumulated
        double tol = 1e-9;
        VF_CHECK(std::abs(own.sin(a) - std::sin(a + base)) <= tol && std::abs(own.cos(a) - std::cos(a + base)) <= tol, "cached",
                 "sector " << mn << ".." << mx << " by " << inc << ", bearing " << a << " heading " << base << ": " << own.sin(a) << " "
                 << own.cos(a) << " want " << std::sin(a + base) << " " << std::cos(a + base));
        auto p = ScanPoint2D::make_polar(3, a, true);
        auto w = p.move_origin(1, -2, sh);
        VF_CHECK(std::abs(w.x - 1 - 3 * std::cos(a + base)) < 1e-8 && std::abs(w.y + 2 - 3 * std::sin(a + base)) < 1e-8, "cached-move", w);
        count("bearings_looked_up");
      };
      double acc = mn; std::vector<int> is;
      for (int i = 0; i < 40; ++i) { is.push_back(rng.below(n + 1)); }
      is.push_back(0); is.push_back(n);
      for (int i : is) { look(mn + i * inc); if (i == n) { count("last_bearings"); } }
      for (int i = 0; i <= std::min(n, 60); ++i, acc += inc) { look(acc); }
      if (n <= 60 && acc - inc <= mx + 1e-12) { count("last_bearings"); }
      eval(); distinct(Hash().add(mn).add(inc).add(base));
    }
  }
}
VF_MAIN
