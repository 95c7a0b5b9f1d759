// C25: synthetic scans against an independent ray caster; pasted rasters and primitives cell by cell.
#include "common.h"
#include "maps_common.h"
#include "cells_common.h"
#include "utils/data_generation/laser_scan_generator.h"
#include "utils/data_generation/map_primitives.h"
#include "utils/data_generation/grid_map_patcher.h"
using namespace vf;

REQUIRE_EVENTS("closed_circles", 20)
REQUIRE_EVENTS("hits", 50000)
REQUIRE_EVENTS("misses", 10000)
REQUIRE_EVENTS("raster_cells", 100000)
REQUIRE_EVENTS("primitives", 1000)
REQUIRE_EVENTS("end_of_sector_beams", 300)
REQUIRE_EVENTS("blocked_at_limit", 100)

namespace {
using ld = long double;
// part of the beam (in metres) within a box; false if there's none
bool slab(ld ox, ld oy, ld dx, ld dy, ld l, ld r, ld b, ld t, ld &in, ld &out) {
  in = -1e30L; out = 1e30L;
  auto axis = [&](ld o, ld d, ld lo, ld hi) {
    if (std::abs(d) < 1e-15L) { return lo <= o && o <= hi; }
    ld a = (lo - o) / d, c = (hi - o) / d;
    if (c < a) { std::swap(a, c); }
    in = std::max(in, a); out = std::min(out, c);
    return in <= out;
  };
  return axis(ox, dx, l, r) && axis(oy, dy, b, t) && 0 <= out;
}
} // namespace

FAMILY(scanner, 2500, 60000) {
  double s = rng.chance(0.2) ? rng.uni(0.05, 2) : rng.pickd({0.1, 0.25, 1, 0.5});
  bool bounded = rng.chance(0.3);
  int half = rng.range(6, 25);
  auto m = make_map(bounded ? rng.below(2) : 2 + rng.below(2), std::make_shared<GridCell>(Occupancy{0.5, 1}), {2 * half, 2 * half, s});
  double thr = rng.chance(0.5) ? 1 : rng.pickd({0.6, 0.8, 0.3});
  std::set<C, CLess> occ;
  auto put = [&](C c, double p) {
    m->update(c, mk_obs(p));
    if (p < thr) { occ.erase(c); } else { occ.insert(c); }
  };
  // with a threshold below the unknown cells' probability nothing is seen through
  bool dense = thr <= 0.5;
  if (dense) { for (int x = -half; x < half; ++x) for (int y = -half; y < half; ++y) { put(C(x, y), 0); } }
  double density = rng.pickd({0, 0.02, 0.1, 0.4});
  for (int x = -half; x < half; ++x) for (int y = -half; y < half; ++y) {
    if (rng.chance(density)) { put(C(x, y), rng.chance(0.7) ? 1 : rng.unit()); }
  }
  if (rng.chance(0.4)) { // walls
    int a = rng.range(1, half - 1);
    for (int i = -a; i <= a; ++i) { put(C(i, a), 1); put(C(-a, i), 1); if (rng.chance(0.7)) { put(C(i, -a), 1); } }
  }
  C rc(rng.range(-half / 2, half / 2), rng.range(-half / 2, half / 2));
  put(rc, 0); // the scanner stands in a free cell
  bool centre = rng.chance(0.3);
  RobotPose pose{(rc.x + (centre ? 0.5 : rng.uni(0.02, 0.98))) * s, (rc.y + (centre ? 0.5 : rng.uni(0.02, 0.98))) * s,
                 rng.chance(0.3) ? rng.range(-4, 4) * M_PI / 4 : rng.uni(-7, 7)};
  if (dense || bounded) { // keep to the known part
    double room = half * s - std::max(std::abs(pose.x), std::abs(pose.y)) - 2 * s;
    if (room < s) { return; }
  }
  double max_d = s * rng.uni(0.5, 1.5 * half);
  if (dense || bounded) { max_d = std::min(max_d, half * s - std::max(std::abs(pose.x), std::abs(pose.y)) - 2 * s); }
  double h, inc; bool exact = false;
  int k = rng.below(4);
  if (k == 0) { exact = true; inc = 1.0 / (1 << rng.range(0, 6)); h = inc * rng.range(0, int(3 / inc)); if (rng.chance(0.3)) { h += inc / 2; } }
  else if (k == 1 && rng.chance(0.3)) { h = M_PI; inc = 2 * M_PI / (1 << rng.range(0, 5)); }
  else if (k == 1) { auto p = to_lsp(max_d, 360, rng.range(1, 200)); h = p.h_hsector; inc = p.h_angle_inc; }
  else if (k == 2) { auto p = to_lsp(max_d, rng.uni(1, 360), rng.range(1, 100)); h = p.h_hsector; inc = p.h_angle_inc; }
  else { h = rng.uni(0, M_PI); inc = rng.uni(0.01, 1); }
  LaserScanGenerator gen{LaserScannerParams{max_d, inc, h}};
  auto scan = thr == 1 && rng.chance(0.5) ? gen.laser_scan_2D(*m, pose) : gen.laser_scan_2D(*m, pose, thr);
  std::ostringstream w; w << std::setprecision(17) << Geo{*m}.str() << " pose (" << pose.x << "," << pose.y << "," << pose.theta << ") range " << max_d << " sector +-" << h << " by " << inc;
  auto &pts = scan.points();
  VF_CHECK(!!scan.trig_provider, "no-trig-provider", w.str());
  size_t at = 0; bool uncertain = false;
  int n = (int)std::floor(2 * h / inc + 1e-9);
  std::vector<C> cells(occ.begin(), occ.end());
  for (int i = 0; i <= n; ++i) {
    ld a = -(ld)h + (ld)i * inc;
    bool maybe_absent = false;
    if (h - 1e-9L < a && !exact) { maybe_absent = true; }
    if (2 * M_PIl - 1e-9L < h + a) { maybe_absent = true; } // the same direction as the first beam
    if (exact && a == h) { count("end_of_sector_beams"); }
    ld dx = std::cos((ld)pose.theta + a), dy = std::sin((ld)pose.theta + a);
    // the first occupied cell clearly met; anything doubtful before makes the beam doubtful
    const C *hit = nullptr; ld best = 1e30L, doubt = 1e30L;
    ld e = 1e-5L * s;
    for (auto &c : cells) {
      ld l = (ld)c.x * s, b = (ld)c.y * s, in, out;
      if (!slab(pose.x, pose.y, dx, dy, l - e, l + s + e, b - e, b + s + e, in, out)) { continue; }
      if (max_d + e < in) { continue; }
      ld in2, out2;
      bool sure = slab(pose.x, pose.y, dx, dy, l + e, l + s - e, b + e, b + s - e, in2, out2) && in2 < max_d - e && 1e-3L * s < out2 - in2;
      if (sure) { if (in2 < best) { best = in2; hit = &c; } }
      else { doubt = std::min(doubt, in); }
    }
    bool unsure = doubt < best + e;
    // a full circle of exactly representable bearings: its end is its start again
    bool again = i == n && h == M_PI && (n == 1 || n == 2 || n == 4 || n == 8 || n == 16) && inc == 2 * M_PI / n;
    auto is_here = [&]() { return at < pts.size() && std::abs((ld)pts[at].angle() - a) < 1e-9L; };
    if (again) {
      VF_CHECK(!is_here(), "first-beam-twice", w.str() << ": the bearing of the first beam is read again at " << (double)a);
      count("closed_circles"); continue;
    }
    if (maybe_absent || unsure) {
      count("doubtful_beams");
      if (is_here()) { ++at; }
      if (maybe_absent) { uncertain = true; }
      continue;
    }
    if (!hit) {
      VF_CHECK(!is_here(), "phantom", w.str() << ": beam " << i << " at " << (double)a << " reads " << pts[at].range() << " but meets nothing");
      count("misses"); continue;
    }
    VF_CHECK(is_here(), "lost", w.str() << ": beam " << i << " at " << (double)a << " meets " << cs(*hit) << " at " << (double)best << " but has no reading");
    auto &p = pts[at++];
    VF_CHECK(p.is_occupied(), "not-obstacle", w.str() << ": beam " << i);
    ld x = pose.x + p.range() * dx, y = pose.y + p.range() * dy;
    VF_CHECK(0 < p.range() && hit->x * s - e <= x && x <= (hit->x + 1) * s + e && hit->y * s - e <= y && y <= (hit->y + 1) * s + e, "wrong-range",
             w.str() << ": beam " << i << " at " << (double)a << " reads " << p.range() << " which isn't in " << cs(*hit) << " met at " << (double)best);
    count("hits"); if (max_d < p.range()) { count("blocked_at_limit"); }
    distinct(Hash().add(p.range()).add(p.angle()));
  }
  VF_CHECK(at == pts.size() || (uncertain && at + 1 >= pts.size()), "extra-readings", w.str() << ": " << pts.size() << " readings, " << at << " beams");
  eval(n + 1);
  if (rng.chance(0.002)) { sample(w.str() + ", " + std::to_string(pts.size()) + " readings"); }
}

namespace {
using Cells = std::map<C, double, CLess>;
// what a raster describes, for its top-left cell at `off`
Cells expected(const std::vector<std::string> &rows, C off, int wz, int hz) {
  Cells r;
  for (size_t y = 0; y < rows.size(); ++y) for (size_t x = 0; x < rows[y].size(); ++x) {
    for (int i = 0; i < hz; ++i) for (int j = 0; j < wz; ++j) {
      r[C(off.x + (int)x * wz + j, off.y - (int)y * hz - i)] = rows[y][x] == ' ' ? 0 : 1;
    }
  }
  return r;
}
bool matches(const GridMap &m, const Cells &want, const Cells &before, double dflt, std::string *why) {
  Geo g{m};
  for (auto &w : want) {
    if (!g.covers(w.first) || (double)m[w.first] != w.second) {
      *why = cs(w.first) + " has to be " + std::to_string(w.second); return false;
    }
  }
  for (int x = -g.o.x; x < g.w - g.o.x; ++x) for (int y = -g.o.y; y < g.h - g.o.y; ++y) {
    C c(x, y);
    if (want.count(c)) { continue; }
    auto b = before.find(c);
    double v = b == before.end() ? dflt : b->second;
    if ((double)m[c] != v) { *why = cs(c) + " outside of the raster became " + std::to_string((double)m[c]); return false; }
    if (b == before.end() && m[c].is_unknown() != true) { *why = cs(c) + " outside of the raster was written"; return false; }
  }
  return true;
}
} // namespace

FAMILY(raster, 2500, 60000) {
  int kind = 2 + rng.below(2);
  auto m = make_map(kind, std::make_shared<GridCell>(Occupancy{0.5, 1}), {(int)rng.range(1, 40), (int)rng.range(1, 40), 0.5});
  GridMapPatcher patcher; // reused: rasters don't influence each other
  Cells all;
  for (int round = 0, rn = rng.range(1, 3); round < rn; ++round) {
    std::vector<std::string> rows; std::string txt;
    int h = rng.range(0, 7), w = rng.range(1, 9); bool ragged = rng.chance(0.3);
    for (int y = 0; y < h; ++y) {
      std::string r;
      for (int x = 0, n = ragged ? rng.range(1, w) : w; x < n; ++x) { r += rng.chance(0.5) ? ' ' : rng.chance(0.8) ? '+' : '#'; }
      rows.push_back(r); txt += r;
      if (y + 1 < h || rng.chance(0.5)) { txt += '\n'; }
    }
    if (rng.chance(0.2) && !txt.empty() && txt.back() == '\n') { txt += "\n+++\n+++\n"; count("rasters_with_tail"); } // the empty line ends it
    if (!h && rng.chance(0.5)) { txt = "\n+\n"; }
    int wz = rng.range(1, 4), hz = rng.range(1, 4);
    std::istringstream in{txt};
    std::string why;
    std::ostringstream what; what << kMapKinds[kind] << " raster of " << rows.size() << " rows, width " << w << ", zoom " << wz << "x" << hz;
    if (rng.chance(0.6)) {
      C off(rng.range(-30, 30), rng.range(-30, 30));
      if (wz == 1 && hz == 1) { patcher.apply_text_raster(*m, in, off); } else { patcher.apply_text_raster(*m, in, off, wz, hz); }
      auto want = expected(rows, off, wz, hz);
      VF_CHECK(matches(*m, want, all, 0.5, &why), "raster", what.str() << " at " << cs(off) << ": " << why);
      for (auto &c : want) { all[c.first] = c.second; }
      count("raster_cells", want.size());
    } else {
      if (wz == 1 && hz == 1) { patcher.apply_text_raster(*m, in); } else { patcher.apply_text_raster(*m, in, wz, hz); }
      int rw = 0; for (auto &r : rows) { rw = std::max(rw, (int)r.size()); }
      bool ok = false; Cells want;
      for (int dx = 0; dx < 2 && !ok; ++dx) for (int dy = 0; dy < 2 && !ok; ++dy) { // an odd size has two middles
        C off(-(wz * rw + dx) / 2, (hz * (int)rows.size() + dy) / 2);
        want = expected(rows, off, wz, hz);
        ok = matches(*m, want, all, 0.5, &why);
      }
      VF_CHECK(ok, "raster-centred", what.str() << ": " << why);
      for (auto &c : want) { all[c.first] = c.second; }
      count("raster_cells", want.size()); count("centred");
    }
    eval(); distinct(Hash().add((uint64_t)std::hash<std::string>{}(txt)).add(wz).add(hz));
  }
}

FAMILY(primitives, 2000, 20000) {
  int w = rng.range(1, 20), h = rng.range(1, 20);
  using B = CecumTextRasterMapPrimitive::BoundPosition;
  B pos = rng.pick(std::vector<B>{B::Left, B::Right, B::Top, B::Bot});
  CecumTextRasterMapPrimitive pr{w, h, pos};
  std::ostringstream what; what << "cecum " << w << "x" << h << " bound " << (int)pos;
  VF_CHECK(pr.width() == w && pr.height() == h, "primitive-size", what.str() << ": " << pr.width() << "x" << pr.height());
  bool horiz = pos == B::Top || pos == B::Bot;
  auto occupied = [&](int x, int y) { // y counts rows from the top
    bool l = x == 0, r = x == w - 1, t = y == 0, b = y == h - 1;
    if (horiz) { return l || r || (pos == B::Top ? t : b); }
    return t || b || (pos == B::Left ? l : r);
  };
  for (int rep = 0; rep < 2; ++rep) { // a stream can be asked for again
    auto m = make_map(2 + rng.below(2), std::make_shared<GridCell>(Occupancy{0.5, 1}), {5, 5, 1});
    int z = rng.range(1, 3);
    C off(rng.range(-9, 9), rng.range(-9, 9));
    GridMapPatcher{}.apply_text_raster(*m, pr.to_stream(), off, z, z);
    std::vector<std::string> rows;
    for (int y = 0; y < h; ++y) {
      std::string r;
      for (int x = 0; x < w; ++x) { r += occupied(x, y) ? '+' : ' '; }
      rows.push_back(r);
    }
    std::string why;
    VF_CHECK(matches(*m, expected(rows, off, z, z), {}, 0.5, &why), "primitive", what.str() << ": " << why);
  }
  for (auto &f : pr.free_space()) {
    if (f.area() == 0) { count("no_free_space"); continue; }
    VF_CHECK(f.bot() < f.top() && f.left() < f.right(), "free-space-empty", what.str());
    VF_CHECK(0 <= f.left() && f.right() <= w && -(h - 1) <= f.bot() && f.top() <= 1, "free-space-outside", what.str() << ": " << f.left() << ".." << f.right());
    for (int x = 0; x < w; ++x) for (int y = 0; y < h; ++y) {
      bool in = f.left() < x + 1 && x < f.right() && f.bot() < -y + 1 && -y < f.top();
      VF_CHECK(!in || !occupied(x, y), "free-space-occupied", what.str() << ": cell " << x << "," << y);
    }
    count("free_spaces");
  }
  count("primitives"); eval(); distinct(Hash().add(w).add(h).add((int)pos));
}
VF_MAIN
