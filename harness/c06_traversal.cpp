// C06: cells of a beam: complete, connected, ordered.
#include "maps_common.h"
using namespace vf;
REQUIRE_EVENTS("segments", 20000)
REQUIRE_EVENTS("cells_checked", 200000)

namespace {
using LD = long double;

// chord length of segment (a -> b) inside the box, in world units; < 0: none
LD clip(const Point2D &a, const Point2D &b, LD l, LD r, LD bt, LD t) {
  LD t0 = 0, t1 = 1, dx = (LD)b.x - a.x, dy = (LD)b.y - a.y;
  auto f = [&](LD p, LD q) { // p*t <= q
    if (p == 0) { return q >= 0; }
    LD v = q / p;
    if (p < 0) { t0 = std::max(t0, v); } else { t1 = std::min(t1, v); }
    return true;
  };
  if (!f(-dx, a.x - l) || !f(dx, r - a.x) || !f(-dy, a.y - bt) || !f(dy, t - a.y)) { return -1; }
  if (t1 < t0) { return -1; }
  return (t1 - t0) * std::sqrt(dx * dx + dy * dy);
}

void check(const RegularSquaresGrid &g, const Segment2D &s, const std::string &kind, bool loose = false) {
  double m = g.scale();
  auto cells = g.world_to_cells(s);
  std::ostringstream w; w << std::setprecision(17) << kind << " scale " << m << " (" << s.beg().x << ","
    << s.beg().y << ")->(" << s.end().x << "," << s.end().y << ")";
  auto what = w.str();
  count("segments");
  VF_CHECK(!cells.empty(), "empty", what);
  C b = g.world_to_cell(s.beg()), e = g.world_to_cell(s.end());
  VF_CHECK(cells.front() == b, "first", what << ": first " << cs(cells.front()) << " start cell " << cs(b));
  VF_CHECK(cells.back() == e, "last", what << ": last " << cs(cells.back()) << " end cell " << cs(e));
  std::set<C, CLess> in;
  for (size_t i = 0; i < cells.size(); ++i) {
    VF_CHECK(in.insert(cells[i]).second, "repeated", what << ": " << cs(cells[i]) << " twice");
    if (i) {
      int dx = std::abs(cells[i].x - cells[i - 1].x), dy = std::abs(cells[i].y - cells[i - 1].y);
      VF_CHECK(dx <= 1 && dy <= 1, "disconnected", what << ": " << cs(cells[i - 1]) << " -> " << cs(cells[i]));
    }
    // nothing the segment stays clearly away from
    LD pad = (loose ? 1.01L : 0.03L) * m;
    auto c = cells[i];
    VF_CHECK(0 <= clip(s.beg(), s.end(), c.x * (LD)m - pad, (c.x + 1) * (LD)m + pad,
                       c.y * (LD)m - pad, (c.y + 1) * (LD)m + pad), "foreign-cell",
             what << ": " << cs(c) << " is not on the segment");
    count("cells_checked");
  }
  distinct(Hash().add(m).add(s.beg().x).add(s.end().x).add(s.end().y));
  eval();
  if (loose) { return; }
  // every properly crossed cell: walk the exact crossings
  LD dx = (LD)s.end().x - s.beg().x, dy = (LD)s.end().y - s.beg().y;
  std::vector<LD> ts{0, 1};
  auto crossings = [&](LD from, LD d) {
    if (d == 0) { return; }
    LD lo = std::min(from, from + d) / m, hi = std::max(from, from + d) / m;
    for (long k = (long)std::floor(lo); k <= (long)std::ceil(hi); ++k) {
      LD t = (k * (LD)m - from) / d;
      if (0 < t && t < 1) { ts.push_back(t); }
    }
  };
  crossings(s.beg().x, dx); crossings(s.beg().y, dy);
  std::sort(ts.begin(), ts.end());
  LD len = std::sqrt(dx * dx + dy * dy);
  for (size_t i = 1; i < ts.size(); ++i) {
    LD chord = (ts[i] - ts[i - 1]) * len;
    if (chord < 0.02L * m) { continue; }
    // cutting a corner closer than the traversal's absolute resolution
    if (dx != 0 && dy != 0 && chord < 0.98L * m && chord * std::abs(dx * dy) / len < 2e-6L) { continue; }
    LD mt = (ts[i] + ts[i - 1]) / 2;
    LD fx = (s.beg().x + dx * mt) / m, fy = (s.beg().y + dy * mt) / m;
    // properly inside: away from the grid lines
    auto away = [](LD v) { LD f = v - std::floor(v); return 0.004L < f && f < 0.996L; };
    if (!away(fx) || !away(fy)) { continue; }
    C c((int)std::floor(fx), (int)std::floor(fy));
    VF_CHECK(in.count(c), "missed-cell", what << ": crosses " << cs(c) << " along "
             << (double)((ts[i] - ts[i - 1]) * len / m) << " cell(s), but it is not listed");
    count("cells_checked");
  }
}

Point2D rnd_pt(Rng &rng, double m, double span) {
  return Point2D{rng.uni(-span, span) * m, rng.uni(-span, span) * m};
}
double rnd_scale(Rng &rng) { return rng.pickd({0.01, 0.05, 0.1, 0.25, 0.3, 1.0, 2.5, rng.uni(0.02, 3)}); }
struct G : RegularSquaresGrid { using RegularSquaresGrid::RegularSquaresGrid; };
} // namespace

FAMILY(random, 20000, 400000) {
  double m = rnd_scale(rng); G g{(int)rng.range(1, 200), (int)rng.range(1, 200), m};
  auto b = rnd_pt(rng, m, 100);
  double len = m * std::pow(10.0, rng.uni(-2, 2)), a = rng.uni(-M_PI, M_PI);
  check(g, Segment2D{b, Point2D{b.x + len * std::cos(a), b.y + len * std::sin(a)}}, "random");
}
// axis-parallel and diagonal, through corners and centres and along grid lines
FAMILY(aligned, 20000, 400000) {
  double m = rnd_scale(rng); G g{10, 10, m};
  auto snap = [&](double v) {
    switch (rng.below(4)) {
    case 0: return std::floor(v / m) * m;
    case 1: return (std::floor(v / m) + 0.5) * m;
    case 2: return (std::floor(v / m) + 0.25) * m;
    default: return v;
    }
  };
  Point2D b{snap(rng.uni(-40, 40) * m), snap(rng.uni(-40, 40) * m)}, e = b;
  int n = rng.range(0, 40);
  double d = rng.chance(0.5) ? n * m : rng.uni(0, 40) * m;
  int sx = rng.range(-1, 1), sy = rng.range(-1, 1);
  double k = rng.pickd({1, 1, 2, 0.5, 3});
  e.x += sx * d; e.y += sy * d * k;
  check(g, Segment2D{b, e}, "aligned");
}
// nearly axis-parallel and nearly diagonal
FAMILY(near_aligned, 20000, 400000) {
  double m = rnd_scale(rng); G g{10, 10, m};
  auto b = rnd_pt(rng, m, 50);
  if (rng.chance(0.5)) { b = Point2D{std::floor(b.x / m) * m, std::floor(b.y / m) * m}; }
  if (rng.chance(0.3)) { b.x += 0.5 * m; b.y += 0.5 * m; }
  double base = rng.range(-4, 4) * M_PI / 4, eps = std::pow(10.0, rng.uni(-16, -1)) * (rng.chance(0.5) ? 1 : -1);
  double len = m * rng.uni(0.1, 60);
  check(g, Segment2D{b, Point2D{b.x + len * std::cos(base + eps), b.y + len * std::sin(base + eps)}}, "near-aligned");
}
FAMILY(longb, 300, 10000) {
  double m = rnd_scale(rng); G g{10, 10, m};
  auto b = rnd_pt(rng, m, 3000), e = rnd_pt(rng, m, 3000);
  check(g, Segment2D{b, e}, "long");
}
// Between grid corners, far from the origin: rounding may make the exact traversal miss the end, and a line of cells
// within a cell of the segment is taken instead.
FAMILY(far_aligned, 60000, 1000000) {
  double m = rng.chance(0.6) ? 0.1 : std::pow(10.0, rng.uni(-2, 2)); G g{2, 2, m};
  double far = std::pow(10.0, rng.uni(0, 6));
  auto corner = [&](double span) { return m * std::round(rng.uni(-span, span) / m); };
  Point2D b{corner(far), corner(far)};
  if (1e9 < std::abs(b.x / m) || 1e9 < std::abs(b.y / m)) { return; }
  check(g, Segment2D{b, Point2D{b.x + m * rng.range(-50, 50), b.y + m * rng.range(-50, 50)}}, "far-aligned", true);
}
FAMILY(same_cell, 4000, 60000) {
  double m = rnd_scale(rng); G g{10, 10, m};
  C c((int)rng.range(-30, 30), (int)rng.range(-30, 30));
  auto pt = [&]() { return Point2D{(c.x + rng.uni(0.01, 0.99)) * m, (c.y + rng.uni(0.01, 0.99)) * m}; };
  auto b = pt(), e = rng.chance(0.2) ? b : pt();
  check(g, Segment2D{b, e}, "same-cell");
  auto cells = g.world_to_cells(Segment2D{b, e});
  VF_CHECK(cells.size() == 1, "same-cell-size", cells.size());
}

FAMILY(discrete, 20000, 400000) {
  int span = rng.chance(0.1) ? 3000 : rng.chance(0.5) ? 6 : 60;
  C b((int)rng.range(-span, span), (int)rng.range(-span, span)), e((int)rng.range(-span, span), (int)rng.range(-span, span));
  std::vector<C> pts = DiscreteSegment2D{b, e};
  std::string what = cs(b) + "->" + cs(e);
  int n = std::max(std::abs(e.x - b.x), std::abs(e.y - b.y));
  VF_CHECK(!pts.empty() && pts.front() == b && pts.back() == e, "discrete-ends", what);
  VF_CHECK((int)pts.size() == n + 1, "discrete-size", what << " has " << pts.size() << " points");
  for (size_t i = 0; i < pts.size(); ++i) {
    if (i) {
      VF_CHECK(std::abs(pts[i].x - pts[i-1].x) <= 1 && std::abs(pts[i].y - pts[i-1].y) <= 1 && pts[i] != pts[i-1],
               "discrete-connected", what << " at " << i);
    }
    if (n) {
      double t = double(i) / n;
      double ix = b.x + t * (e.x - b.x), iy = b.y + t * (e.y - b.y);
      VF_CHECK(std::abs(ix - pts[i].x) <= 0.5 + 1e-6 && std::abs(iy - pts[i].y) <= 0.5 + 1e-6, "discrete-deviates",
               what << " point " << i << " " << cs(pts[i]));
    }
    count("cells_checked");
  }
  count("discrete_lines");
  distinct(Hash().add(b.x).add(b.y).add(e.x).add(e.y));
  eval();
}
VF_MAIN
