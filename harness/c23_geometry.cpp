// C23: cells of world points, rectangles, beam/rectangle intersections, rasterisation.
#include "maps_common.h"
#include "core/geometry_utils.h"
#include "core/maps/grid_rasterization.h"
#include "core/maps/rescalable_caching_grid_map.h"
#include "core/scan_matchers/m3rsm_engine.h"
#include "core/states/robot_pose.h"
#include "core/scan_matchers/observation_impact_estimators.h"
using namespace vf;
REQUIRE_EVENTS("points_located", 30000)
REQUIRE_EVENTS("points_negative", 5000)
REQUIRE_EVENTS("points_far", 3000)
REQUIRE_EVENTS("points_on_border", 3000)
REQUIRE_EVENTS("rescaled_points", 3000)
REQUIRE_EVENTS("rectangle_pairs", 10000)
REQUIRE_EVENTS("beams_crossing", 3000)
REQUIRE_EVENTS("beams_missing", 3000)
REQUIRE_EVENTS("rasterised", 5000)
REQUIRE_EVENTS("pose_sums", 5000)

namespace {
using LWR = LightWeightRectangle;
std::string rs(const LWR &r) { std::ostringstream o; o << std::setprecision(17) << "[x " << r.left() << ".." << r.right() << ", y " << r.bot() << ".." << r.top() << "]"; return o.str(); }

void locate(const RegularSquaresGrid &g, double x, double y) {
  double s = g.scale();
  auto c = g.world_to_cell(x, y), c2 = g.world_to_cell(Point2D{x, y}), c3 = g.world_to_cell(x, y, s);
  VF_CHECK(c == c2 && c == c3, "overloads", cs(c) << cs(c2) << cs(c3));
  auto b = g.world_cell_bounds(c);
  double tol = 4e-16 * (std::abs(x) + std::abs(y)) + 1e-300;
  VF_CHECK(b.left() - tol <= x && x <= b.right() + tol && b.bot() - tol <= y && y <= b.top() + tol, "bounds",
           x << "," << y << " is put into " << cs(c) << " with bounds " << rs(b));
  // clearly inside of a neighbour it would be its
  VF_CHECK(std::abs(b.hside_len() - s) <= 1e-15 * std::abs(x) + 1e-12 * s && std::abs(b.vside_len() - s) <= 1e-15 * std::abs(y) + 1e-12 * s, "bounds-size", rs(b) << " scale " << s);
  auto ctr = g.cell_to_world(c);
  VF_CHECK(g.world_to_cell(ctr) == c, "centre", "centre " << ctr.x << "," << ctr.y << " of " << cs(c) << " lies in " << cs(g.world_to_cell(ctr)));
  VF_CHECK(std::abs(ctr.x - (b.left() + b.right()) / 2) <= 1e-9 * std::max(1., std::abs(x)) && std::abs(ctr.y - (b.bot() + b.top()) / 2) <= 1e-9 * std::max(1., std::abs(y)), "centre-bounds", rs(b));
  // adjacent cells tile the plane: no gap, no overlap
  auto r = g.world_cell_bounds({c.x + 1, c.y}), t = g.world_cell_bounds({c.x, c.y + 1});
  VF_CHECK(r.left() == b.right() && t.bot() == b.top(), "tiling", rs(b) << " next " << rs(r) << " above " << rs(t));
  count("points_located"); if (x < 0 || y < 0) { count("points_negative"); }
  if (1e4 < std::abs(x)) { count("points_far"); }
  distinct(Hash().add(c.x).add(c.y).add(s)); eval();
}
} // namespace

FAMILY(cells, 20000, 400000) {
  double s = rng.chance(0.5) ? rng.pickd({0.1, 0.05, 0.025, 1, 0.5, 0.3, 2}) : rng.uni(0.01, 3);
  RegularSquaresGrid g{(int)rng.range(1, 2000), (int)rng.range(1, 2000), s};
  for (int i = 0; i < 6; ++i) {
    double m = rng.chance(0.3) ? rng.pickd({1e5, 1e6, 1e7}) : rng.pickd({1, 10, 100});
    if (1e9 * s < m) { m = s * 1e8; }
    double x = rng.uni(-m, m), y = rng.uni(-m, m);
    if (rng.chance(0.3)) { // cell borders and corners
      long k = rng.range(-5000, 5000), l = rng.range(-5000, 5000);
      x = k * s; y = rng.chance(0.5) ? l * s : y; count("points_on_border");
      if (rng.chance(0.5)) { x = std::nextafter(x, rng.chance(0.5) ? 1e9 : -1e9); }
      // an exactly representable border belongs to the cell on its right/top only
      if ((s == 1 || s == 0.5 || s == 2) && k) {
        auto c = g.world_to_cell(k * s, l * s);
        VF_CHECK(c == C(k, l), "border-owner", "corner " << k * s << "," << l * s << " is put into " << cs(c));
        VF_CHECK(g.world_to_cell(std::nextafter(k * s, -1e9), l * s) == C(k - 1, l), "border-owner-left", k * s);
      }
    }
    locate(g, x, y);
    C c(rng.range(-2000000, 2000000), rng.range(-200, 200));
    if (rng.chance(0.5)) { c.x = rng.range(-20, 20); }
    auto w = g.cell_to_world(c);
    VF_CHECK(g.world_to_cell(w) == c, "centre-back", cs(c) << " -> " << w.x << "," << w.y << " -> " << cs(g.world_to_cell(w)));
    auto b = g.world_cell_bounds(c);
    double f = rng.uni(0.001, 0.999), h = rng.uni(0.001, 0.999);
    C in = g.world_to_cell(b.left() + f * b.hside_len(), b.bot() + h * b.vside_len());
    VF_CHECK(in == c, "inside", "a point " << f << "," << h << " inside of " << cs(c) << " is put into " << cs(in));
    C i2 = g.internal2external({c.x, c.y});
    VF_CHECK(i2.x == c.x - g.origin().x && i2.y == c.y - g.origin().y, "internal", cs(i2));
    bool covered = -g.origin().x <= c.x && c.x < g.width() - g.origin().x && -g.origin().y <= c.y && c.y < g.height() - g.origin().y;
    VF_CHECK(g.has_cell(c) == covered, "has-cell", cs(c) << " of " << g.width() << "x" << g.height());
  }
}

FAMILY(poses, 5000, 100000) { // points, poses and changes of a pose
  auto v = [&] { return rng.chance(0.2) ? rng.pickd({0, 1, -1, M_PI, -M_PI, 100}) : rng.uni(-50, 50); };
  auto same = [](double a, double b) { return a == b || std::abs(a - b) <= 1e-13 * std::max(1., std::abs(b)); };
  double a[3] = {v(), v(), v()}, b[3] = {v(), v(), v()}, c[3] = {v(), v(), v()};
  auto eq = [&](const RobotPose &p, double x, double y, double t, const char *n) { VF_CHECK(same(p.x, x) && same(p.y, y) && same(p.theta, t), std::string("pose:") + n, p << " want " << x << "," << y << "," << t); };
  auto deq = [&](const RobotPoseDelta &p, double x, double y, double t, const char *n) { VF_CHECK(same(p.x, x) && same(p.y, y) && same(p.theta, t), std::string("delta:") + n, p << " want " << x << "," << y << "," << t); };
  RobotPose p{a[0], a[1], a[2]}; RobotPoseDelta d{b[0], b[1], b[2]}, e{c[0], c[1], c[2]};
  eq(p + d, a[0] + b[0], a[1] + b[1], a[2] + b[2], "plus");
  RobotPose q = p; eq(q += d, a[0] + b[0], a[1] + b[1], a[2] + b[2], "plus-assign"); eq(q, a[0] + b[0], a[1] + b[1], a[2] + b[2], "plus-assigned");
  deq(q - p, q.x - a[0], q.y - a[1], q.theta - a[2], "difference"); eq(p + (q - p), q.x, q.y, q.theta, "there-and-back");
  RobotPose r{p}; eq(r, a[0], a[1], a[2], "copy"); r = q; eq(r, q.x, q.y, q.theta, "assign"); r = *&r; eq(r, q.x, q.y, q.theta, "self-assign");
  eq(RobotPose{d}, b[0], b[1], b[2], "of-delta"); eq(RobotPose{}, 0, 0, 0, "default"); eq(RobotPose{std::move(r)}, q.x, q.y, q.theta, "move");
  VF_CHECK(p.point().x == a[0] && p.point().y == a[1], "pose:point", p);
  deq(d + e, b[0] + c[0], b[1] + c[1], b[2] + c[2], "plus"); deq(-d, -b[0], -b[1], -b[2], "minus");
  RobotPoseDelta f{d}; deq(f += e, b[0] + c[0], b[1] + c[1], b[2] + c[2], "plus-assign"); deq(f, b[0] + c[0], b[1] + c[1], b[2] + c[2], "plus-assigned");
  deq(d.abs(), std::abs(b[0]), std::abs(b[1]), std::abs(b[2]), "abs");
  deq(RobotPoseDelta{Point2D{b[0], b[1]}, b[2]}, b[0], b[1], b[2], "of-point"); deq(RobotPoseDelta{}, 0, 0, 0, "default");
  VF_CHECK(same(d.sq_dist(), b[0] * b[0] + b[1] * b[1]), "delta:sq-dist", d << ": " << d.sq_dist());
  bool ls = std::abs(b[0]) < std::abs(c[0]) && std::abs(b[1]) < std::abs(c[1]) && std::abs(b[2]) < std::abs(c[2]);
  VF_CHECK(d.is_abs_less(e) == ls, "delta:abs-less", d << " and " << e);
  VF_CHECK(bool(d) == (b[0] != 0 || b[1] != 0 || b[2] != 0) || std::abs(b[0]) + std::abs(b[1]) + std::abs(b[2]) < 1e-3, "delta:bool", d);
  for (int i = 0; i < 3; ++i) { double z[3] = {0, 0, 0}; z[i] = rng.chance(0.5) ? .5 : -.5; RobotPoseDelta o{z[0], z[1], z[2]};
    VF_CHECK(bool(o) && !(o == RobotPoseDelta{}) && o == o && !(d + o == d), "delta:one-component", o); }
  f.reset(); deq(f, 0, 0, 0, "reset"); VF_CHECK(!f && f == RobotPoseDelta{}, "delta:zero", f);
  Point2D s{a[0], a[1]}, t{b[0], b[1]};
  VF_CHECK(same(s.dist_sq(t), (a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1])) && same(s.dist_sq(t), t.dist_sq(s)) && s.dist_sq(s) == 0, "point:dist", s << t << s.dist_sq(t));
  auto su = s + t, di = s - t, m1 = s * c[0], m2 = c[0] * s;
  VF_CHECK(same(su.x, a[0] + b[0]) && same(su.y, a[1] + b[1]) && same(di.x, a[0] - b[0]) && same(di.y, a[1] - b[1]), "point:sum", s << t);
  VF_CHECK(same(m1.x, a[0] * c[0]) && same(m1.y, a[1] * c[0]) && same(m2.x, m1.x) && same(m2.y, m1.y), "point:scaled", m1 << m2);
  C i{(int)rng.range(-300, 300), (int)rng.range(-300, 300)}, j{(int)rng.range(-300, 300), (int)rng.range(-300, 300)};
  VF_CHECK((i + j) == C(i.x + j.x, i.y + j.y) && (i - j) == C(i.x - j.x, i.y - j.y) && i == i && (i == j) == (i.x == j.x && i.y == j.y), "cell:sum", cs(i) << cs(j));
  { // cells that are far apart: the squares do not fit into an int
    double far = rng.pickd({1e3, 4e4, 1e5, 1e6});
    C u{(int)(rng.uni(-1, 1) * far), (int)(rng.uni(-1, 1) * far)}, v{(int)(rng.uni(-1, 1) * far), (int)(rng.uni(-1, 1) * far)};
    double dx = double(u.x) - v.x, dy = double(u.y) - v.y;
    VF_CHECK(near(u.dist_sq(v) / (1 + dx * dx + dy * dy), (dx * dx + dy * dy) / (1 + dx * dx + dy * dy), 1e-12), "cell:dist-far", cs(u) << cs(v) << u.dist_sq(v));
    count("far_cell_pairs");
  }
  VF_CHECK(i.dist_sq(j) == (i.x - j.x) * (i.x - j.x) + (i.y - j.y) * (i.y - j.y), "cell:dist", cs(i) << cs(j) << i.dist_sq(j));
  count("pose_sums"); eval(); distinct(Hash().add(a[0]).add(b[1]).add(c[2]));
}

FAMILY(rescaled, 3000, 60000) {
  auto oie = std::make_shared<DiscrepancyOIE>();
  double s = rng.pickd({0.1, 0.05, 0.25, 1});
  M3RSMRescalableGridMap<UnboundedPlainGridMap> m{oie, std::make_shared<MeanProbabilityCell>(), {(int)rng.range(1, 70), (int)rng.range(1, 70), s}};
  for (int i = 0; i < 4; ++i) { m.update(C(rng.range(-50, 50), rng.range(-50, 50)), mk_obs(rng.unit(), 1, 1, true)); }
  for (int i = 0; i < 8; ++i) {
    double sc = s * std::pow(2, rng.range(0, 8)) * (rng.chance(0.5) ? 1 : rng.uni(0.6, 1.4));
    m.rescale(sc);
    if (m.scale() == RegularSquaresGrid::Dbl_Inf) {
      VF_CHECK(m.world_to_cell(rng.uni(-9, 9), rng.uni(-9, 9)) == C(0, 0), "infinite-cell", sc);
      auto b = m.world_cell_bounds({0, 0});
      VF_CHECK(std::isinf(b.left()) && std::isinf(b.top()), "infinite-bounds", rs(b));
      continue;
    }
    double x = rng.uni(-6, 6), y = rng.uni(-6, 6);
    locate(m, x, y); count("rescaled_points");
    // a coarse cell holds whole finest cells
    auto coarse = m.world_to_cell(x, y); auto cb = m.world_cell_bounds(coarse);
    m.rescale(0);
    auto fb = m.world_cell_bounds(m.world_to_cell(x, y));
    VF_CHECK(m.scale() == s, "finest", m.scale());
    VF_CHECK(cb.left() <= fb.left() + 1e-9 && fb.right() <= cb.right() + 1e-9 && cb.bot() <= fb.bot() + 1e-9 && fb.top() <= cb.top() + 1e-9, "nesting",
             rs(fb) << " isn't in " << rs(cb));
  }
}

FAMILY(rectangles, 40000, 800000) {
  bool lattice = rng.chance(0.4); // shared and touching edges
  double off = rng.chance(0.2) ? rng.uni(-1000, 1000) : 0;
  auto mk = [&] {
    double a[4];
    for (auto &v : a) { v = lattice ? rng.range(-4, 4) * 0.25 : rng.uni(-2, 2); }
    double b = std::min(a[0], a[1]), t = std::max(a[0], a[1]), l = std::min(a[2], a[3]), r = std::max(a[2], a[3]);
    if (rng.chance(0.15)) { t = b; r = l; } // a point
    else { if (t - b < 0.01) { t = b + 0.25; } if (r - l < 0.01) { r = l + 0.25; } }
    return LWR{b + off, t + off, l - off, r - off};
  };
  auto a = mk(), b = mk();
  double tol = 1e-9 * std::max(1., std::abs(off));
  VF_CHECK(std::abs(a.area() - (a.top() - a.bot()) * (a.right() - a.left())) <= tol, "area", rs(a) << " " << a.area());
  VF_CHECK(std::abs(a.center().x - (a.left() + a.right()) / 2) <= tol && std::abs(a.center().y - (a.bot() + a.top()) / 2) <= tol, "center", rs(a));
  VF_CHECK(a.is_line() == ((a.top() == a.bot()) != (a.left() == a.right())), "is-line", rs(a));
  VF_CHECK(a.is_point() == (a.top() == a.bot() && a.left() == a.right()), "is-point", rs(a));
  // intersection and overlap
  double ih = std::min(a.right(), b.right()) - std::max(a.left(), b.left()), iv = std::min(a.top(), b.top()) - std::max(a.bot(), b.bot());
  double ia = 0 < ih && 0 < iv ? ih * iv : 0;
  auto i1 = a.intersect(b), i2 = b.intersect(a);
  VF_CHECK(i1 == i2, "intersect-symmetric", rs(a) << rs(b));
  VF_CHECK(std::abs(i1.area() - ia) <= tol, "intersect-area", rs(a) << " and " << rs(b) << ": " << rs(i1) << " want area " << ia);
  if (0 < ia) {
    VF_CHECK(near(i1.left(), std::max(a.left(), b.left())) && near(i1.right(), std::min(a.right(), b.right())) &&
             near(i1.bot(), std::max(a.bot(), b.bot())) && near(i1.top(), std::min(a.top(), b.top())), "intersect", rs(a) << rs(b) << rs(i1));
  }
  VF_CHECK(a.intersect(a) == a, "intersect-self", rs(a));
  if (0 < a.area()) {
    VF_CHECK(std::abs(a.overlap(b) - ia / a.area()) <= 1e-6, "overlap", rs(a) << " by " << rs(b) << ": " << a.overlap(b) << " want " << ia / a.area());
    VF_CHECK(near(a.overlap(a), 1, 1e-12), "overlap-self", a.overlap(a));
  } else {
    double d = std::min(std::min(a.left() - b.left(), b.right() - a.left()), std::min(a.bot() - b.bot(), b.top() - a.bot()));
    double m = 1e-6 * std::max(1., std::abs(off)); // distance to b's border, inside positive
    if (m < d) { VF_CHECK(a.overlap(b) == 1, "overlap-point", rs(a) << " in " << rs(b)); }
    if (d < -m) { VF_CHECK(a.overlap(b) == 0, "overlap-point-out", rs(a) << " in " << rs(b)); }
  }
  count("rectangle_pairs"); eval();
  // containment
  for (int i = 0; i < 6; ++i) {
    double x = rng.uni(a.left() - .5, a.right() + .5), y = rng.uni(a.bot() - .5, a.top() + .5);
    if (rng.chance(0.2)) { x = rng.chance(0.5) ? a.left() : a.right(); }
    if (rng.chance(0.2)) { y = rng.chance(0.5) ? a.bot() : a.top(); }
    double m = 1e-6 * std::max(1., std::abs(off) * 2);
    bool in = a.left() <= x && x <= a.right() && a.bot() <= y && y <= a.top();
    bool far = x < a.left() - m || a.right() + m < x || y < a.bot() - m || a.top() + m < y;
    if (in) { VF_CHECK(a.contains(x, y) && a.contains(Point2D{x, y}), "contains", x << "," << y << " in " << rs(a)); }
    if (far) { VF_CHECK(!a.contains(x, y), "contains-not", x << "," << y << " in " << rs(a)); }
  }
  for (auto &c : a.corners()) { VF_CHECK((c.x == a.left() || c.x == a.right()) && (c.y == a.bot() || c.y == a.top()), "corners", rs(a)); }
  { auto c = a.corners(); std::set<std::pair<double, double>> u; for (auto &p : c) { u.insert({p.x, p.y}); }
    VF_CHECK(c.size() == 4 && u.size() == (a.area() ? 4u : u.size()), "corners-all", rs(a)); }
  // parts: same union, no overlap, equal areas
  auto parts = [&](const std::vector<LWR> &v, size_t n, bool h, bool w, const char *name) {
    VF_CHECK(v.size() == n, name, v.size());
    double sum = 0, l = 1e300, r = -1e300, bb = 1e300, t = -1e300;
    for (size_t i = 0; i < n; ++i) {
      auto &p = v[i];
      VF_CHECK(near(p.area(), a.area() / n, 1e-9) || std::abs(p.area() - a.area() / n) <= tol, name, rs(p) << " of " << rs(a));
      VF_CHECK(std::abs(p.hside_len() - a.hside_len() / (w ? 2 : 1)) <= tol && std::abs(p.vside_len() - a.vside_len() / (h ? 2 : 1)) <= tol, name, rs(p) << " of " << rs(a));
      sum += p.area(); l = std::min(l, p.left()); r = std::max(r, p.right()); bb = std::min(bb, p.bot()); t = std::max(t, p.top());
      for (size_t k = 0; k < i; ++k) { VF_CHECK(p.intersect(v[k]).area() <= tol, name, rs(p) << " overlaps " << rs(v[k])); }
    }
    VF_CHECK(std::abs(sum - a.area()) <= tol && l == a.left() && r == a.right() && bb == a.bot() && t == a.top(), name, "parts of " << rs(a));
  };
  parts(a.split_vert(), 2, true, false, "split-vert");
  parts(a.split_horz(), 2, false, true, "split-horz");
  parts(a.split4_evenly(), 4, true, true, "split4");
  double nx = rng.uni(-9, 9), ny = rng.uni(-9, 9), f = rng.uni(0.5, 4);
  auto mv = a.move_center({nx, ny}); auto sh = a.shrink(f);
  VF_CHECK(std::abs(mv.hside_len() - a.hside_len()) <= tol && std::abs(mv.vside_len() - a.vside_len()) <= tol && std::abs(mv.center().x - nx) <= tol && std::abs(mv.center().y - ny) <= tol,
           "move-center", rs(a) << " to " << nx << "," << ny << ": " << rs(mv));
  VF_CHECK(std::abs(sh.hside_len() - a.hside_len() / f) <= tol && std::abs(sh.vside_len() - a.vside_len() / f) <= tol && std::abs(sh.center().x - a.center().x) <= tol &&
           std::abs(sh.center().y - a.center().y) <= tol, "shrink", rs(a) << " by " << f << ": " << rs(sh));
  distinct(Hash().add(a.left()).add(a.bot()).add(b.left()).add(b.top()));
}

FAMILY(beams, 60000, 1500000) {
  double size = rng.pickd({0.05, 0.1, 1, 5}), cx = rng.uni(-20, 20), cy = rng.uni(-20, 20);
  if (rng.chance(0.5)) { cx = rng.range(-40, 40) * size; cy = rng.range(-40, 40) * size; }
  double hw = size * rng.uni(0.3, 1), hh = rng.chance(0.5) ? hw : size * rng.uni(0.3, 1);
  Rectangle r{cy - hh, cy + hh, cx - hw, cx + hw};
  Point2D a, b;
  auto corner = [&] { return Point2D{rng.chance(0.5) ? r.left() : r.right(), rng.chance(0.5) ? r.bot() : r.top()}; };
  auto near_pt = [&] { return Point2D{cx + rng.uni(-3, 3) * hw, cy + rng.uni(-3, 3) * hh}; };
  switch (rng.below(6)) {
  case 0: a = near_pt(); b = near_pt(); break;
  case 1: a = near_pt(); b = corner(); break;
  case 2: { a = near_pt(); auto c = corner(); double k = rng.uni(1, 3); b = Point2D{a.x + (c.x - a.x) * k, a.y + (c.y - a.y) * k}; } break; // through a corner
  case 3: a = near_pt(); b = rng.chance(0.5) ? Point2D{a.x, near_pt().y} : Point2D{near_pt().x, a.y}; break;
  case 4: a = corner(); b = rng.chance(0.5) ? corner() : near_pt(); break;
  default: { a = near_pt(); if (rng.chance(0.5)) { a.x = rng.chance(0.5) ? r.left() : r.right(); b = Point2D{a.x, near_pt().y}; }
             else { a.y = rng.chance(0.5) ? r.bot() : r.top(); b = Point2D{near_pt().x, a.y}; } } break; // along an edge
  }
  Segment2D s{a, b};
  double len = std::hypot(b.x - a.x, b.y - a.y);
  auto what = [&] { std::ostringstream o; o << std::setprecision(17) << "(" << a.x << "," << a.y << ")-(" << b.x << "," << b.y << ") and " << rs(r); return o.str(); };
  VF_CHECK(near(s.length_sq(), len * len, 1e-9), "length", what());
  VF_CHECK(s.is_horiz() == are_equal(a.y, b.y) && s.is_vert() == are_equal(a.x, b.x), "axis", what());
  auto on_border = [&](const Point2D &p, double tol) {
    bool ins = r.left() - tol <= p.x && p.x <= r.right() + tol && r.bot() - tol <= p.y && p.y <= r.top() + tol;
    bool e = std::abs(p.x - r.left()) <= tol || std::abs(p.x - r.right()) <= tol || std::abs(p.y - r.bot()) <= tol || std::abs(p.y - r.top()) <= tol;
    return ins && e;
  };
  double tol = 1e-6 * std::max({1., std::abs(cx), std::abs(cy)});
  auto verify = [&](const Intersections &is, bool segment) {
    VF_CHECK(is.size() <= 2, "too-many", is.size() << " of " << what());
    for (auto &i : is) {
      VF_CHECK(on_border(i, tol), "not-on-rectangle", i.x << "," << i.y << " of " << what());
      double d = len ? std::abs((i.x - a.x) * (b.y - a.y) - (i.y - a.y) * (b.x - a.x)) / len : 0;
      VF_CHECK(d <= tol, "not-on-line", i.x << "," << i.y << " is " << d << " away from " << what());
      if (segment && 1e-6 < len) {
        double t = ((i.x - a.x) * (b.x - a.x) + (i.y - a.y) * (b.y - a.y)) / len;
        VF_CHECK(-tol <= t && t <= len + tol, "not-on-segment", i.x << "," << i.y << " of " << what());
      }
      using L = Intersection::Location;
      bool loc = i.location == L::Bot ? std::abs(i.y - r.bot()) <= tol : i.location == L::Top ? std::abs(i.y - r.top()) <= tol :
                 i.location == L::Left ? std::abs(i.x - r.left()) <= tol : std::abs(i.x - r.right()) <= tol;
      VF_CHECK(loc && i.is_horiz() == (i.location == L::Bot || i.location == L::Top), "edge", i.x << "," << i.y << " of " << what());
      VF_CHECK(bool(r.find_containing_edge(i)), "no-edge", i.x << "," << i.y << " of " << what());
    }
    if (is.size() == 2) { VF_CHECK(!(is[0] == is[1]), "same-twice", is[0].x << "," << is[0].y << " of " << what()); }
  };
  auto is = r.find_intersections(s); verify(is, true);
  if (1e-6 < len) { verify(r.find_intersections(Ray{s}), false); }
  // clear cases: Liang-Barsky with a margin
  auto clip = [&](double m, double &t0, double &t1) { // part of the segment inside of the rectangle grown by m
    t0 = 0; t1 = 1;
    double d[2] = {b.x - a.x, b.y - a.y}, p[2] = {a.x, a.y}, lo[2] = {r.left() - m, r.bot() - m}, hi[2] = {r.right() + m, r.top() + m};
    for (int k = 0; k < 2; ++k) {
      if (d[k] == 0) { if (p[k] < lo[k] || hi[k] < p[k]) { return false; } continue; }
      double u = (lo[k] - p[k]) / d[k], v = (hi[k] - p[k]) / d[k];
      if (v < u) { std::swap(u, v); }
      t0 = std::max(t0, u); t1 = std::min(t1, v);
    }
    return t0 <= t1;
  };
  double m = 0.01 * size, t0, t1;
  bool axis_slanted = len && (std::abs(b.x - a.x) < 1e-5 || std::abs(b.y - a.y) < 1e-5) && b.x != a.x && b.y != a.y;
  if (!clip(m, t0, t1)) { VF_CHECK(is.empty(), "false-intersection", is.size() << " of " << what()); count("beams_missing"); }
  else if (clip(-m, t0, t1) && !axis_slanted && 0.05 * size < (t1 - t0) * len) {
    auto in = [&](const Point2D &p, double g) { return r.left() - g <= p.x && p.x <= r.right() + g && r.bot() - g <= p.y && p.y <= r.top() + g; };
    if (!in(a, m) && !in(b, m)) { VF_CHECK(is.size() == 2, "missed", is.size() << " of " << what()); count("beams_crossing"); }
    if (in(a, -m) != in(b, -m) && in(a, m) != in(b, m)) { VF_CHECK(is.size() == 1, "missed-end", is.size() << " of " << what()); count("beams_crossing"); }
    if (in(a, -m) && in(b, -m)) { VF_CHECK(is.empty(), "inner", is.size() << " of " << what()); }
  }
  for (auto &e : {Segment2D{{r.left(), r.bot()}, {r.right(), r.bot()}}, Segment2D{{r.right(), r.top()}, {r.right(), r.bot()}}}) { VF_CHECK(r.has_on_edge_line(e), "edge-line", rs(r)); }
  VF_CHECK(!r.has_on_edge_line(Segment2D{{cx, cy - 1}, {cx, cy + 1}}) && !r.has_on_edge_line(Segment2D{{cx - 1, cy}, {cx + 1, cy}}), "edge-line-middle", rs(r));
  VF_CHECK(!r.find_containing_edge({cx, cy}), "edge-of-centre", rs(r));
  distinct(Hash().add(a.x).add(b.y).add(cx)); eval();
}

FAMILY(raster, 20000, 300000) {
  double s = rng.pickd({0.1, 0.05, 1, 0.3});
  RegularSquaresGrid g{(int)rng.range(1, 40), (int)rng.range(1, 40), s};
  bool lattice = rng.chance(0.4), border = rng.chance(0.6);
  auto v = [&] { return lattice ? rng.range(-12, 12) * s : rng.uni(-12, 12) * s; };
  double x0 = v(), x1 = v(), y0 = v(), y1 = v();
  if (x1 < x0) { std::swap(x0, x1); } if (y1 < y0) { std::swap(y0, y1); }
  if (rng.chance(0.1)) { x1 = x0; y1 = y0; } else if (rng.chance(0.1)) { x1 = x0; } else if (rng.chance(0.1)) { y1 = y0; }
  if (rng.chance(0.02)) {
    double inf = RegularSquaresGrid::Dbl_Inf;
    auto all = GridRasterizedRectangle{g, LWR{-inf, inf, -inf, inf}, border}.to_vector();
    std::set<C, CLess> u(all.begin(), all.end());
    VF_CHECK((long)all.size() == (long)g.width() * g.height() && u.size() == all.size(), "infinite", all.size());
    for (auto &c : all) { VF_CHECK(g.has_cell(c), "infinite-out", cs(c)); }
    return;
  }
  LWR r{y0, y1, x0, x1};
  auto cells = GridRasterizedRectangle{g, r, border}.to_vector();
  std::set<C, CLess> u(cells.begin(), cells.end());
  VF_CHECK(u.size() == cells.size(), "repeated", rs(r));
  double m = 1e-7; // the interior of a cell
  for (auto &c : cells) {
    auto b = g.world_cell_bounds(c);
    bool touch = b.left() - m <= x1 && x0 <= b.right() + m && b.bot() - m <= y1 && y0 <= b.top() + m;
    VF_CHECK(touch, "foreign-cell", cs(c) << " of " << rs(r) << " scale " << s);
    if (!border) { // no more than a touch is not enough
      double t = 1e-12;
      bool inner = (x0 == x1 || (b.left() + t < x1 && x0 < b.right() - t)) && (y0 == y1 || (b.bot() + t < y1 && y0 < b.top() - t));
      VF_CHECK(inner, "border-cell", cs(c) << " of " << rs(r) << " scale " << s);
    }
  }
  for (int x = -14; x <= 14; ++x) for (int y = -14; y <= 14; ++y) {
    auto b = g.world_cell_bounds({x, y});
    bool inside = (x0 == x1 ? b.left() + m < x0 && x0 < b.right() - m : b.left() + m < x1 && x0 < b.right() - m) &&
                  (y0 == y1 ? b.bot() + m < y0 && y0 < b.top() - m : b.bot() + m < y1 && y0 < b.top() - m);
    if (inside) { VF_CHECK(u.count(C(x, y)), "missing-cell", cs(C(x, y)) << " of " << rs(r) << " scale " << s << " border " << border); }
  }
  if (x0 == x1 && y0 == y1) { VF_CHECK(cells.size() == 1 && cells[0] == g.world_to_cell(x0, y0), "point", cells.size()); }
  // has_next/next agree with the list
  GridRasterizedRectangle it{g, r, border}; size_t n = 0;
  while (it.has_next()) { auto c = it.next(); VF_CHECK(n < cells.size() && c == cells[n], "iteration", cs(c)); ++n; }
  VF_CHECK(n == cells.size(), "iteration-length", n);
  count("rasterised"); eval(); distinct(Hash().add(x0).add(y1).add(s));
}
VF_MAIN
