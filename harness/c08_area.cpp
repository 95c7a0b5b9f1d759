// C08: area occupancy estimates reflect how the beam really crosses the cell.
#include "common.h"
#include "core/maps/area_occupancy_estimator.h"
#include "core/maps/const_occupancy_estimator.h"
using namespace vf;
REQUIRE_EVENTS("clear_estimates", 20000)
REQUIRE_EVENTS("obstacle_share_checked", 3000)
REQUIRE_EVENTS("pierce_share_checked", 3000)
REQUIRE_EVENTS("degenerate_estimates", 3000)
REQUIRE_EVENTS("symmetries", 20000)
REQUIRE_EVENTS("beams_from_an_edge", 5000)

namespace {
using LD = long double;
struct P { LD x, y; };
struct Sq { double l, b, s; LD r() const { return (LD)l + s; } LD t() const { return (LD)b + s; } };

// area of the square's part where n.(p - o) > 0
LD half_area(const Sq &q, P o, P n) {
  std::vector<P> poly{{q.l, q.b}, {q.r(), q.b}, {q.r(), q.t()}, {q.l, q.t()}}, out;
  auto side = [&](P p) { return (p.x - o.x) * n.x + (p.y - o.y) * n.y; };
  for (size_t i = 0; i < 4; ++i) {
    P a = poly[i], c = poly[(i + 1) % 4];
    LD sa = side(a), sc = side(c);
    if (0 <= sa) { out.push_back(a); }
    if ((sa < 0) != (sc < 0)) { LD t = sa / (sa - sc); out.push_back({a.x + t * (c.x - a.x), a.y + t * (c.y - a.y)}); }
  }
  LD ar = 0;
  for (size_t i = 0; i < out.size(); ++i) {
    auto &a = out[i], &c = out[(i + 1) % out.size()];
    ar += a.x * c.y - c.x * a.y;
  }
  return std::abs(ar) / 2;
}
// < 0: misses; otherwise the chord length
LD chord(const Sq &q, Point2D a, Point2D e) {
  LD t0 = 0, t1 = 1, dx = (LD)e.x - a.x, dy = (LD)e.y - a.y;
  auto f = [&](LD p, LD v) {
    if (p == 0) { return v >= 0; }
    LD u = v / p;
    if (p < 0) { t0 = std::max(t0, u); } else { t1 = std::min(t1, u); }
    return true;
  };
  if (!f(-dx, a.x - (LD)q.l) || !f(dx, q.r() - a.x) || !f(-dy, a.y - (LD)q.b) || !f(dy, q.t() - a.y)) { return -1; }
  return t1 < t0 ? -1 : (t1 - t0) * std::sqrt(dx * dx + dy * dy);
}

struct Bases { Occupancy occ, emp; double low, unk; };
struct Verdict { bool clear = false; bool invalid = false; double p = 0, q = 0; const char *kind = ""; };

Verdict expect(const Sq &c, Point2D a, Point2D e, bool occ, const Bases &bs) {
  Verdict v;
  double mag = std::max({1.0, std::abs(c.l) + c.s, std::abs(c.b) + c.s, std::abs(a.x), std::abs(a.y),
                         std::abs(e.x), std::abs(e.y)});
  LD T = 2e-6L * mag;
  auto near_edge = [&](Point2D p) {
    bool inx = c.l - T < p.x && p.x < c.r() + T, iny = c.b - T < p.y && p.y < c.t() + T;
    return inx && iny && (std::abs(p.x - (LD)c.l) < T || std::abs(p.x - c.r()) < T ||
                          std::abs(p.y - (LD)c.b) < T || std::abs(p.y - c.t()) < T);
  };
  auto inside = [&](Point2D p) { return c.l < p.x && p.x < c.r() && c.b < p.y && p.y < c.t(); };
  if (near_edge(a) || near_edge(e)) { return v; }
  LD dx = (LD)e.x - a.x, dy = (LD)e.y - a.y, len = std::sqrt(dx * dx + dy * dy);
  if (len < T) { return v; }
  // (nearly) on the line of an edge
  if (std::abs(dx) < T && (std::abs(a.x - (LD)c.l) < T || std::abs(a.x - c.r()) < T)) { return v; }
  if (std::abs(dy) < T && (std::abs(a.y - (LD)c.b) < T || std::abs(a.y - c.t()) < T)) { return v; }
  LD xs[] = {c.l, c.r()}, ys[] = {c.b, c.t()};
  for (auto x : xs) for (auto y : ys) {
    LD d = ((x - a.x) * dy - (y - a.y) * dx) / len, along = ((x - e.x) * dx + (y - e.y) * dy) / len;
    if (std::abs(d) < T) { return v; }
    if (occ && std::abs(along) < T) { return v; }
  }
  v.clear = true;
  bool bi = inside(a), ei = inside(e);
  if (!bi && !ei && chord(c, a, e) < 0) { v.invalid = true; v.kind = "miss"; return v; }
  if (!ei && occ) { v.invalid = true; v.kind = "obstacle-elsewhere"; return v; }
  if (bi && ei) {
    if (occ) { v.invalid = true; v.kind = "lies-inside"; return v; }
    v.p = bs.emp.prob_occ; v.q = bs.unk; v.kind = "lies-inside"; return v;
  }
  LD total = (LD)c.s * c.s;
  if (ei && occ) {
    LD share = half_area(c, {e.x, e.y}, {dx, dy}) / total;
    v.p = std::max((double)share, bs.emp.prob_occ); v.q = bs.occ.estimation_quality; v.kind = "obstacle"; return v;
  }
  if (bi != ei) { v.p = bs.emp.prob_occ; v.q = bs.unk; v.kind = bi ? "starts" : "stops"; return v; }
  LD share = half_area(c, {e.x, e.y}, {-dy, dx}) / total;
  v.p = bs.emp.prob_occ; v.q = bs.emp.estimation_quality * (double)std::min(share, 1 - share); v.kind = "pierce";
  return v;
}

std::string str(const Sq &c, Point2D a, Point2D e, bool occ) {
  std::ostringstream o; o << std::setprecision(17) << "cell l=" << c.l << " b=" << c.b << " side=" << c.s << " beam ("
    << a.x << "," << a.y << ")->(" << e.x << "," << e.y << ") occ=" << occ;
  return o.str();
}

Rectangle rect(const Sq &c) { return Rectangle{c.b, c.b + c.s, c.l, c.l + c.s}; }

Occupancy check(AreaOccupancyEstimator &est, const Bases &bs, const Sq &c, Point2D a, Point2D e, bool occ) {
  auto o = est.estimate_occupancy(Segment2D{a, e}, rect(c), occ);
  auto what = str(c, a, e, occ);
  if (o.is_valid()) {
    VF_CHECK(0 <= o.prob_occ && o.prob_occ <= 1 + 1e-9 && 0 <= o.estimation_quality && o.estimation_quality <= 1,
             "out-of-range", what << ": " << o.prob_occ << ", " << o.estimation_quality);
    VF_CHECK(bs.emp.prob_occ - 1e-12 <= o.prob_occ, "below-empty", what << ": " << o.prob_occ);
  }
  auto v = expect(c, a, e, occ, bs);
  if (v.clear) {
    count("clear_estimates");
    if (v.invalid) {
      VF_CHECK(!o.is_valid(), std::string("informs:") + v.kind, what << ": " << o.prob_occ << "," << o.estimation_quality);
    } else {
      std::string k = v.kind;
      VF_CHECK(o.is_valid() && near(o.prob_occ, v.p, 1e-5) && near(o.estimation_quality, v.q, 1e-5), "wrong-estimate:" + k,
               what << ": got " << o.prob_occ << "," << o.estimation_quality << " want " << v.p << "," << v.q);
      if (k == "obstacle") { count("obstacle_share_checked"); }
      if (k == "pierce") { count("pierce_share_checked"); }
    }
  } else { count("degenerate_estimates"); }
  eval();
  distinct(Hash().add(a.x).add(a.y).add(e.x).add(e.y).add(c.l).add(c.s).add(occ));
  return o;
}

Bases rnd_bases(Rng &rng) {
  Bases b;
  b.occ = {rng.uni(0.55, 1), rng.uni(0.05, 1)};
  b.emp = {rng.pickd({0, 0.01, 0.1, 0.3, rng.uni(0, 0.45)}), rng.uni(0.05, 1)};
  b.low = rng.chance(0.5) ? 0.01 : rng.uni(0.001, 0.3);
  b.unk = rng.chance(0.5) ? 0.5 : rng.unit();
  return b;
}
AreaOccupancyEstimator make(const Bases &b) { return AreaOccupancyEstimator{b.occ, b.emp, b.low, b.unk}; }
} // namespace

FAMILY(random, 150000, 3000000) {
  auto bs = rnd_bases(rng); auto est = make(bs);
  double s = rng.pickd({0.01, 0.05, 0.1, 0.25, 1, 2, 7.5});
  double span = rng.pickd({1, 10, 200});
  Sq c{std::floor(rng.uni(-span, span)) * s, std::floor(rng.uni(-span, span)) * s, s};
  auto pt = [&](double reach) { return Point2D{c.l + s * rng.uni(-reach, 1 + reach), c.b + s * rng.uni(-reach, 1 + reach)}; };
  auto a = pt(rng.pickd({0, 0.5, 2, 20})), e = pt(rng.pickd({0, 0, 0.5, 2, 20}));
  // nearly aligned beams
  if (rng.chance(0.15)) { e.x = a.x + rng.gauss() * s * std::pow(10, rng.uni(-9, -2)); }
  if (rng.chance(0.15)) { e.y = a.y + rng.gauss() * s * std::pow(10, rng.uni(-9, -2)); }
  for (int occ = 0; occ < 2; ++occ) { check(est, bs, c, a, e, occ); }
}

// everything on a lattice of eighths of the cell: corners, edges, diagonals
FAMILY(lattice, 150000, 3000000) {
  auto bs = rnd_bases(rng); auto est = make(bs);
  double s = rng.pickd({0.125, 0.5, 1, 4, 0.1, 0.05});
  double off = rng.pickd({0, 1, 5, 50});
  Sq c{std::round(rng.uni(-off, off)) * s, std::round(rng.uni(-off, off)) * s, s};
  int den = rng.pickd({1, 2, 4, 8});
  auto pt = [&]() { return Point2D{c.l + s * rng.range(-2 * den, 3 * den) / den, c.b + s * rng.range(-2 * den, 3 * den) / den}; };
  auto a = pt(), e = pt();
  for (int occ = 0; occ < 2; ++occ) { check(est, bs, c, a, e, occ); }
}

// the line behind the obstacle (or the beam) goes through vertices of the cell
FAMILY(diagonal, 60000, 2000000) {
  auto bs = rnd_bases(rng); auto est = make(bs);
  double s = rng.pickd({0.1, 0.05, 0.025, 0.3, 1, rng.uni(0.01, 1)});
  long ox = rng.range(-300, 300), oy = rng.range(-300, 300);
  if (rng.chance(0.3)) { ox = rng.range(-1, 0); oy = rng.range(-1, 0); }
  Sq c{ox * s, oy * s, s};
  auto b = rect(c);
  Point2D e = rng.chance(0.5) ? Point2D{s * (ox + 0.5), s * (oy + 0.5)} : Point2D{c.l + s * rng.uni(0.05, .95), c.b + s * rng.uni(0.05, .95)};
  auto cr = b.corners()[rng.below(4)];
  double k = rng.uni(1.5, 60) * (rng.chance(0.5) ? 1 : -1);
  Point2D a{e.x + (cr.y - e.y) * k, e.y - (cr.x - e.x) * k};
  auto o = est.estimate_occupancy(Segment2D{a, e}, b, true);
  double m = 1e-4; // the corner's side can't matter
  auto o2 = est.estimate_occupancy(Segment2D{{a.x + m * (e.y - a.y), a.y - m * (e.x - a.x)}, e}, b, true);
  if (std::hypot(a.x - e.x, a.y - e.y) > 1.5 * s) {
    VF_CHECK(o.is_valid() && o2.is_valid(), "diagonal-invalid", str(c, a, e, true));
    VF_CHECK(near(o.prob_occ, o2.prob_occ, 2e-3), "diagonal", str(c, a, e, true) << ": " << o.prob_occ << ", for a beam turned by " << m << " " << o2.prob_occ);
    VF_CHECK(near(o.estimation_quality, bs.occ.estimation_quality), "diagonal-quality", str(c, a, e, true) << ": " << o.estimation_quality);
  }
  // a free beam along the diagonal
  Point2D p = b.corners()[0], q = b.corners()[3]; double f = rng.uni(0.5, 40), g = rng.uni(0.5, 40);
  if (rng.chance(0.5)) { p = b.corners()[1]; q = b.corners()[2]; }
  Point2D u{p.x + (p.x - q.x) * f, p.y + (p.y - q.y) * f}, v{q.x + (q.x - p.x) * g, q.y + (q.y - p.y) * g};
  auto o3 = est.estimate_occupancy(Segment2D{u, v}, b, false);
  VF_CHECK(o3.is_valid() && near(o3.prob_occ, bs.emp.prob_occ) && near(o3.estimation_quality, bs.emp.estimation_quality / 2, 1e-5), "along-diagonal",
           str(c, u, v, false) << ": " << o3.prob_occ << "," << o3.estimation_quality);
  count("diagonals"); eval(2); distinct(Hash().add(a.x).add(e.x).add(u.x));
}

// a beam that begins exactly on an edge and ends well inside
FAMILY(starts_on_edge, 20000, 300000) {
  auto bs = rnd_bases(rng); auto est = make(bs);
  double s = rng.pickd({0.125, 0.5, 1, 4}); // exact in binary
  Sq c{rng.range(-40, 40) * s, rng.range(-40, 40) * s, s};
  double f = s * rng.range(1, 63) / 64;
  Point2D as[] = {{c.l, c.b + f}, {c.l + s, c.b + f}, {c.l + f, c.b}, {c.l + f, c.b + s}};
  Point2D a = as[rng.below(4)], e{c.l + s * rng.uni(0.05, 0.95), c.b + s * rng.uni(0.05, 0.95)};
  if (rng.chance(0.2)) { e = Point2D{c.l + s / 2, c.b + s / 2}; }
  LD dx = (LD)e.x - a.x, dy = (LD)e.y - a.y;
  for (LD x : {(LD)c.l, c.r()}) { for (LD y : {(LD)c.b, c.t()}) { // the dividing line is off the corners
    if (std::abs((x - e.x) * dx + (y - e.y) * dy) < 1e-4L * s * s) { return; }
  } }
  for (int occ = 0; occ < 2; ++occ) {
    auto o = est.estimate_occupancy(Segment2D{a, e}, rect(c), occ);
    auto what = str(c, a, e, occ);
    double p = bs.emp.prob_occ, q = bs.unk;
    if (occ) { p = std::max(p, (double)(half_area(c, {e.x, e.y}, {dx, dy}) / ((LD)s * s))); q = bs.occ.estimation_quality; }
    VF_CHECK(o.is_valid() && near(o.prob_occ, p, 1e-5) && near(o.estimation_quality, q, 1e-5), "from-edge",
             what << ": got " << o.prob_occ << "," << o.estimation_quality << " want " << p << "," << q);
    count("beams_from_an_edge"); eval(); distinct(Hash().add(a.x).add(a.y).add(e.x).add(e.y));
  }
}

// the same picture moved, turned and mirrored (exact in binary)
FAMILY(symmetry, 60000, 400000) {
  auto bs = rnd_bases(rng); auto est = make(bs);
  double s = rng.pickd({0.25, 0.5, 1, 2});
  double unit = s / (rng.chance(0.5) ? 8 : 1024);
  auto q = [&](double v) { return std::round(v / unit) * unit; };
  Sq c{-s / 2, -s / 2, s}; // centred: turning maps the cell on itself
  auto pt = [&](double reach) { return Point2D{q(s * rng.uni(-reach, reach)), q(s * rng.uni(-reach, reach))}; };
  auto a = pt(2), e = pt(rng.chance(0.5) ? 0.5 : 2);
  bool clear = expect(c, a, e, true, bs).clear;
  for (int occ = 0; occ < 2; ++occ) {
    auto o = check(est, bs, c, a, e, occ);
    for (int k = 1; k < 16; ++k) {
      auto tr = [&](Point2D p) {
        if (k & 4) { p.x = -p.x; }
        for (int i = 0; i < (k & 3); ++i) { p = Point2D{-p.y, p.x}; }
        return p;
      };
      Point2D shift{0, 0};
      if (k & 8) { shift = Point2D{rng.range(-40, 40) * s, rng.range(-40, 40) * s}; }
      Sq c2{c.l + shift.x, c.b + shift.y, s};
      auto a2 = tr(a) + shift, e2 = tr(e) + shift;
      auto o2 = est.estimate_occupancy(Segment2D{a2, e2}, rect(c2), occ);
      count("symmetries");
      // a free beam through a corner, to the rounding: cutting off next to nothing or missing is the same
      auto hardly = [&](const Occupancy &x) { return !occ && (!x.is_valid() || x.estimation_quality < 1e-6); };
      if (!clear && hardly(o) && hardly(o2)) { count("grazed_corners"); continue; }
      VF_CHECK(o.is_valid() == o2.is_valid() && (!o.is_valid() || (near(o.prob_occ, o2.prob_occ, 1e-6) &&
               near(o.estimation_quality, o2.estimation_quality, 1e-6))), clear ? "not-invariant" : "not-invariant-degenerate",
               str(c, a, e, occ) << ": " << o.prob_occ << "," << o.estimation_quality << "; transformed " << k << " "
               << str(c2, a2, e2, occ) << ": " << o2.prob_occ << "," << o2.estimation_quality);
    }
  }
}

// one estimator (and one process) serving cells of very different sizes
FAMILY(mixed_sizes, 6000, 100000) {
  auto bs = rnd_bases(rng); auto est = make(bs);
  double first = rng.pickd({0.01, 100}), s = rng.pickd({0.01, 0.1, 1, 100});
  est.estimate_occupancy(Segment2D{{0, 0}, {first * 2, 0}}, Rectangle{0, first, 0, first}, false);
  Sq c{std::floor(rng.uni(-5, 5)) * s, std::floor(rng.uni(-5, 5)) * s, s};
  // a beam along an edge of the cell through the whole cell
  double k = rng.uni(0.5, 3), j = rng.uni(0.5, 3);
  int e = rng.below(4);
  Point2D a, b;
  if (e < 2) { double y = e ? c.b + s : c.b; a = Point2D{c.l - k * s, y}; b = Point2D{c.l + s + j * s, y}; }
  else { double x = e == 2 ? c.l : c.l + s; a = Point2D{x, c.b - k * s}; b = Point2D{x, c.b + s + j * s}; }
  auto o = est.estimate_occupancy(Segment2D{a, b}, rect(c), false);
  VF_CHECK(o.is_valid() && near(o.prob_occ, bs.emp.prob_occ) &&
           near(o.estimation_quality, bs.emp.estimation_quality * std::min(bs.low, 1 - bs.low), 1e-5), "edge-beam",
           str(c, a, b, false) << " low " << bs.low << ": " << o.prob_occ << "," << o.estimation_quality);
  count("edge_beams");
  eval(); distinct(Hash().add(a.x).add(b.x).add(c.l).add(s));
}

FAMILY(constant, 2000, 20000) {
  auto bs = rnd_bases(rng);
  ConstOccupancyEstimator est{bs.occ, bs.emp};
  Point2D a{rng.uni(-5, 5), rng.uni(-5, 5)}, e{rng.uni(-5, 5), rng.uni(-5, 5)};
  double l = rng.uni(-5, 5), b = rng.uni(-5, 5), s = rng.uni(0.1, 4);
  for (int occ = 0; occ < 2; ++occ) {
    auto o = est.estimate_occupancy(Segment2D{a, e}, Rectangle{b, b + s, l, l + s}, occ);
    auto w = occ ? bs.occ : bs.emp;
    VF_CHECK(o.prob_occ == w.prob_occ && o.estimation_quality == w.estimation_quality, "const", occ);
    eval();
  }
}
VF_MAIN
