// C01: every map kind behaves like an infinite (or fixed) grid of cells.
#include "maps_common.h"
using namespace vf;

REQUIRE_EVENTS("growths", 500)
REQUIRE_EVENTS("cell_reads_checked", 100000)
REQUIRE_EVENTS("ops_update", 5000)
REQUIRE_EVENTS("ops_reset", 1000)
REQUIRE_EVENTS("ops_on_kilometre_maps", 200)

namespace {

struct Op { int t; C c; double p; };

std::vector<double> scales{0.05, 0.1, 1.0, 0.25, 3.0, 0.01};

C rnd_coord(Rng &rng, const Geo &g, bool unb, int spread, int spread_y, const std::vector<C> &used) {
  int mode = rng.below(10);
  int lx = -g.o.x, hx = g.w - 1 - g.o.x, ly = -g.o.y, hy = g.h - 1 - g.o.y;
  C c{0, 0};
  if (mode < 3 && !used.empty()) {
    c = rng.pick(used);
    if (rng.chance(0.5)) { c = c + C(rng.range(-1, 1), rng.range(-1, 1)); }
  } else if (mode < 6) { // inside / on the border
    c = C(rng.range(lx, hx), rng.range(ly, hy));
    if (rng.chance(0.3)) { c.x = rng.chance(0.5) ? lx : hx; }
    if (rng.chance(0.3)) { c.y = rng.chance(0.5) ? ly : hy; }
  } else if (mode < 8) { // just outside
    c = C(rng.range(lx, hx), rng.range(ly, hy));
    int d = rng.range(1, 3);
    switch (rng.below(4)) {
    case 0: c.x = lx - d; break;
    case 1: c.x = hx + d; break;
    case 2: c.y = ly - d; break;
    default: c.y = hy + d;
    }
  } else if (mode < 9) { // tile borders
    int t = 128;
    c = C(t * rng.range(-1, 1) - g.o.x + rng.range(-1, 1),
          t * rng.range(-1, 1) - g.o.y + rng.range(-1, 1));
  } else {
    c = C(rng.range(-spread, spread), rng.range(-spread_y, spread_y));
    if (spread != spread_y && rng.chance(0.5)) { (spread < spread_y ? c.y : c.x) = rng.pick(std::vector<int>{-1, 1}) * std::max(spread, spread_y); }
  }
  c.x = std::max(-spread, std::min(spread, c.x));
  c.y = std::max(-spread_y, std::min(spread_y, c.y));
  if (!unb) {
    c.x = std::max(lx, std::min(hx, c.x));
    c.y = std::max(ly, std::min(hy, c.y));
  }
  return c;
}

template <typename ModelT>
void verify_all(const GridMap &m, const ModelT &model, const GridCell &proto,
                bool unb, Rng &rng, int spread, const std::string &what,
                const std::string &kind) {
  Geo before{m};
  for (auto &kv : model) {
    double got = m[kv.first].occupancy().prob_occ;
    double want = kv.second->occupancy().prob_occ;
    VF_CHECK(near(got, want), "content:" + kind,
             what << ": cell " << cs(kv.first) << " reads " << got
             << ", its history gives " << want << "; " << Geo{m}.str());
    VF_CHECK(near(m.occupancy(kv.first), want), "occupancy-read:" + kind,
             what << ": occupancy() of " << cs(kv.first));
    VF_CHECK(m[kv.first].is_unknown() == kv.second->is_unknown(),
             "unknown-flag:" + kind, what << ": cell " << cs(kv.first));
    count("cell_reads_checked");
    // neighbours never written must read as the prototype
    for (int k = 0; k < 2; ++k) {
      C n = kv.first + C(rng.range(-1, 1), rng.range(-1, 1));
      if (model.count(n) || (!unb && !before.covers(n))) { continue; }
      VF_CHECK(near(m[n].occupancy().prob_occ, proto.occupancy().prob_occ),
               "unwritten:" + kind, what << ": never written cell " << cs(n)
               << " reads " << m[n].occupancy().prob_occ);
      count("cell_reads_checked");
    }
  }
  for (int k = 0; k < 8; ++k) {
    C n(rng.range(-2 * spread, 2 * spread), rng.range(-2 * spread, 2 * spread));
    if (rng.chance(0.5)) { n = C(rng.range(-before.o.x, before.w - before.o.x - 1),
                                 rng.range(-before.o.y, before.h - before.o.y - 1)); }
    if (model.count(n) || (!unb && !before.covers(n))) { continue; }
    VF_CHECK(near(m[n].occupancy().prob_occ, proto.occupancy().prob_occ),
             "unwritten:" + kind, what << ": never written cell " << cs(n));
    count("cell_reads_checked");
  }
  VF_CHECK(Geo{m} == before, "read-changes-map:" + kind, what);
}

std::shared_ptr<GridCell> rnd_proto(Rng &rng) {
  switch (rng.below(6)) {
  case 0: return std::make_shared<GridCell>(Occupancy{rng.unit(), 1});
  case 1: return std::make_shared<AffineQualityMergeCell>();
  case 2: return std::make_shared<MeanProbabilityCell>();
  case 3: return std::make_shared<TbmUnknownEvenOccCell>();
  default: return std::make_shared<HistCell>(rng.unit());
  }
}

// a map may be thin and very long: spread_y below spread, or a fixed size
void history(Rng &rng, int kind, int n_ops, int spread, int max_dim, int spread_y = -1, int max_dim_y = -1) {
  if (spread_y < 0) { spread_y = spread; }
  if (max_dim_y < 0) { max_dim_y = max_dim; }
  bool flip = spread_y != spread && rng.chance(0.5);
  if (flip) { std::swap(spread, spread_y); std::swap(max_dim, max_dim_y); }
  int far = std::max(spread, spread_y);
  auto kname = std::string(kMapKinds[kind]);
  bool unb = is_unbounded(kind);
  auto proto = rnd_proto(rng);
  double proto_val = proto->occupancy().prob_occ;
  GridMapParams par{(int)rng.range(1, max_dim), (int)rng.range(1, max_dim_y), rng.pick(scales)};
  if (!unb && max_dim != max_dim_y) { (flip ? par.height_cells : par.width_cells) = std::max(max_dim, max_dim_y); }
  else if (rng.chance(0.2)) { par.width_cells = par.height_cells = 1; }
  auto m = make_map(kind, proto, par);
  VF_CHECK(m->width() == par.width_cells && m->height() == par.height_cells &&
           m->scale() == par.meters_per_cell, "initial-geometry:" + kname, Geo{*m}.str());
  std::map<C, std::unique_ptr<GridCell>, CLess> model;
  std::vector<C> used;
  std::ostringstream log;
  for (int i = 0; i < n_ops; ++i) {
    Geo g{*m};
    C c = rnd_coord(rng, g, unb, spread, spread_y, used);
    bool was_covered = g.covers(c);
    Point2D w_before = m->cell_to_world(c);
    int t = rng.below(10);
    if (t < 6) {
      double p = (rng.range(0, 1000)) / 1000.0;
      auto obs = mk_obs(p, 1.0, rng.uni(0.1, 1.0), rng.chance(0.5),
                        Point2D{rng.uni(-3, 3), rng.uni(-3, 3)});
      m->update(c, obs);
      auto &mc = model[c];
      if (!mc) { mc = proto->clone(); used.push_back(c); }
      *mc += obs;
      count("ops_update");
    } else if (t < 8) {
      std::unique_ptr<GridCell> nc = rng.chance(0.5)
        ? std::unique_ptr<GridCell>{new HistCell{rng.unit()}} : proto->clone();
      m->reset(c, *nc);
      auto &mc = model[c];
      if (!mc) { used.push_back(c); }
      mc = nc->clone();
      // the map must own its own copy
      *nc += mk_obs(0.123);
      count("ops_reset");
    } else {
      double got = (*m)[c].occupancy().prob_occ;
      double want = model.count(c) ? model[c]->occupancy().prob_occ : proto_val;
      VF_CHECK(near(got, want), "content:" + kname,
               "op " << i << " read " << cs(c) << " got " << got << " want " << want);
      VF_CHECK(Geo{*m} == g, "read-changes-map:" + kname, "op " << i);
      count("ops_read");
      continue;
    }
    Geo a{*m};
    VF_CHECK(a.s == g.s, "scale-changed:" + kname, g.str() << " -> " << a.str());
    VF_CHECK(a.includes(g), "coverage-lost:" + kname,
             "op " << i << " at " << cs(c) << ": " << g.str() << " -> " << a.str());
    VF_CHECK(a.covers(c), "trigger-uncovered:" + kname,
             "op " << i << " at " << cs(c) << ": " << a.str());
    VF_CHECK(m->has_cell(c), "has_cell:" + kname, cs(c));
    if (was_covered) {
      VF_CHECK(a == g, "growth-without-need:" + kname,
               "op " << i << " at covered " << cs(c) << ": " << g.str() << " -> " << a.str());
    } else {
      count("growths");
    }
    Point2D w_after = m->cell_to_world(c);
    VF_CHECK(near(w_before.x, w_after.x) && near(w_before.y, w_after.y),
             "world-moved:" + kname, cs(c));
    VF_CHECK(m->world_to_cell(w_after) == c, "world-cell:" + kname, cs(c));
    double got = (*m)[c].occupancy().prob_occ, want = model[c]->occupancy().prob_occ;
    VF_CHECK(near(got, want), "content:" + kname,
             "op " << i << " wrote " << cs(c) << " got " << got << " want " << want);
    VF_CHECK(near(proto->occupancy().prob_occ, proto_val), "prototype-changed:" + kname, "");
    if (!was_covered || i % 17 == 0 || i + 1 == n_ops) {
      std::ostringstream w; w << "after op " << i << " at " << cs(c)
                              << (was_covered ? "" : " (growth)");
      verify_all(*m, model, *proto, unb, rng, far, w.str(), kname);
    }
    Hash h; h.add(kind).add(a.w).add(a.h).add(a.o.x).add(a.o.y).add((uint64_t)model.size());
    distinct(h);
    if (30000 < std::max(a.w, a.h)) { count("ops_on_kilometre_maps"); }
  }
  eval();
  std::ostringstream s;
  s << kname << " initial " << par.width_cells << "x" << par.height_cells << " final "
    << Geo{*m}.str() << " cells written " << model.size() << " ops " << n_ops;
  sample(s.str());
}

} // namespace

FAMILY(uplain_small, 2000, 40000) { history(rng, 2, 60, 25, 12); }
FAMILY(uplain_large, 60, 1200) { history(rng, 2, 60, 150, 60); }
FAMILY(ulazy_near, 400, 8000) { history(rng, 3, 80, 300, 300); }
FAMILY(ulazy_far, 240, 5000) { history(rng, 3, 40, 3000, 200); }
FAMILY(plain, 400, 8000) { history(rng, 0, 80, 1000, 50); }
FAMILY(lazy, 400, 8000) { history(rng, 1, 80, 1000, 400); }

// thin and kilometres long: the side exceeds 2^15, 2^16 cells and 2^8 tiles
FAMILY(long_unbounded_plain, 12, 200) { history(rng, 2, 16, 70000, 40, 2, 3); }
FAMILY(long_unbounded_lazy, 40, 800) { history(rng, 3, 60, 70000, 400, 20, 40); }
FAMILY(long_fixed, 12, 240) { history(rng, rng.below(2), 60, 70000, rng.range(33000, 70000), 3, 3); }

// the same history on all four kinds reads the same everywhere
FAMILY(agree, 200, 4000) {
  auto proto = rnd_proto(rng);
  int half = rng.range(3, 40);
  std::vector<std::unique_ptr<GridMap>> maps;
  double s = rng.pick(scales);
  for (int k = 0; k < 4; ++k) {
    GridMapParams p = is_unbounded(k)
      ? GridMapParams{(int)rng.range(1, 10), (int)rng.range(1, 10), s}
      : GridMapParams{2 * half + 3, 2 * half + 3, s};
    maps.push_back(make_map(k, proto, p));
  }
  std::set<C, CLess> used;
  for (int i = 0; i < 60; ++i) {
    C c(rng.range(-half, half), rng.range(-half, half));
    used.insert(c);
    if (rng.chance(0.8)) {
      auto obs = mk_obs(rng.unit(), 1, rng.unit(), rng.chance(0.5));
      for (auto &m : maps) { m->update(c, obs); }
    } else {
      HistCell nc{rng.unit()};
      for (auto &m : maps) { m->reset(c, nc); }
    }
  }
  for (int x = -half; x <= half; ++x) {
    for (int y = -half; y <= half; ++y) {
      for (int k = 1; k < 4; ++k) {
        VF_CHECK(near(maps[k]->occupancy({x, y}), maps[0]->occupancy({x, y})),
                 "kinds-disagree", kMapKinds[k] << " vs plain at " << cs({x, y}));
        count("cell_reads_checked");
      }
    }
  }
  eval();
}
VF_MAIN
