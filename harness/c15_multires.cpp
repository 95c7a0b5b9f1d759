// C15: coarse levels of a multi-resolution map bound the finest one from above.
#include "cells_common.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#include "core/scan_matchers/m3rsm_engine.h"
using namespace vf;
REQUIRE_EVENTS("updates", 20000)
REQUIRE_EVENTS("bounds_checked", 200000)
REQUIRE_EVENTS("growths", 500)
REQUIRE_EVENTS("levels_added", 50)
REQUIRE_EVENTS("rescales", 5000)
REQUIRE_EVENTS("validated", 1000)
REQUIRE_EVENTS("spoiled_levels", 300)

namespace {
template <typename M>
struct Open : M { // no members are added: a look at a level of an M
  using M::M;
  GridMap &level(unsigned id) { return const_cast<GridMap &>(static_cast<const GridMap &>(this->map(id))); }
};
template <typename M>
void history(Rng &rng, int kind, int ops, int reach) {
  static const int models[] = {0, 1, 2, 3, 4, 6};
  int k = models[rng.below(6)];
  std::string kn = std::string(kMapKinds[kind]) + ":" + kCells[k];
  bool unb = is_unbounded(kind);
  auto proto = make_cell(k);
  std::shared_ptr<ObservationImpactEstimator> oie;
  if (rng.chance(0.5)) { oie = std::make_shared<DiscrepancyOIE>(); } else { oie = std::make_shared<OccupancyOIE>(); }
  double s = rng.pickd({0.1, 0.125, 0.3, 1});
  int big = unb ? 10 : 2 * reach;
  GridMapParams gp{(int)rng.range(1, big), (int)rng.range(1, big), s};
  Open<M> m{oie, proto, gp};
  auto ref = make_map(kind, proto, gp);
  double prior = oie->estimate_obstacle_impact(*proto); // an unobserved coarse cell keeps it
  std::map<C, std::vector<double>, CLess> hist; // impact after every update
  auto style = rng.below(4);
  // a fully written block every now and then lets whole coarse cells become known
  std::vector<std::pair<C, double>> todo;
  unsigned levels = m.scales_nm();
  for (int i = 0; i < ops || todo.size(); ++i) {
    Geo g{*ref};
    C c; double p;
    if (todo.size()) { c = todo.back().first; p = todo.back().second; todo.pop_back(); }
    else {
      if (unb) { c = {(int)rng.range(-reach, reach), (int)rng.range(-reach, reach)}; if (rng.chance(0.5)) { c = {c.x / 4, c.y / 4}; } }
      else { c = C{(int)rng.below(g.w), (int)rng.below(g.h)} - g.o; }
      p = style == 0 ? rng.unit() : style == 1 ? rng.uni(0.55, 1) : style == 2 ? rng.uni(0, 0.45) : rng.pickd({0.01, 0.05, 0.4, 0.6, 0.95});
      if (rng.chance(0.05)) {
        int n = 1 << rng.range(1, 3); C b{(int)std::floor(double(c.x) / n) * n, (int)std::floor(double(c.y) / n) * n};
        for (int x = 0; x < n; ++x) for (int y = 0; y < n; ++y) {
          C q{b.x + x, b.y + y};
          if (unb || g.covers(q)) { todo.emplace_back(q, style == 2 ? p : rng.unit()); }
        }
        rng.shuffle(todo);
      }
    }
    auto o = mk_obs(p, 1, 1, 0.5 < p);
    auto before = Geo{m};
    std::ostringstream w; w << kn << " " << gp.width_cells << "x" << gp.height_cells << " scale " << s << " op " << i << " " << cs(c) << " p " << p;
    auto what = w.str();
    if (rng.chance(0.1) && k != 6) { // reset to a given cell
      auto cell = proto->clone(); *cell += o;
      m.reset(c, *cell); ref->reset(c, *cell); count("resets");
    } else { m.update(c, o); ref->update(c, o); }
    count("updates");
    hist[c].push_back(oie->estimate_obstacle_impact((*ref)[c]));
    if (!(Geo{m} == before)) { count("growths"); }
    VF_CHECK(m.scale_id() == M::finest_scale_id(), "level-left", what);
    VF_CHECK(Geo{m} == Geo{*ref}, "finest-geometry:" + std::string(kMapKinds[kind]), what << ": " << Geo{m}.str() << " ordinary map " << Geo{*ref}.str());
    if (levels < m.scales_nm()) { count("levels_added", m.scales_nm() - levels); }
    VF_CHECK(levels <= m.scales_nm(), "levels-lost", what);
    levels = m.scales_nm();
    if (todo.size() || (i % 5 != 4 && i + 1 < ops)) { continue; }

    // -- every level against the recorded finest history
    Geo f{*ref};
    double prev = 0;
    std::vector<double> scales;
    for (unsigned id = 0; id < m.scales_nm(); ++id) {
      m.set_scale_id(id); Geo l{m}; scales.push_back(l.s);
      bool top = id + 1 == m.scales_nm();
      VF_CHECK(id == 0 ? l.s == s : prev < l.s, "level-scale", what << " level " << id << " scale " << l.s);
      VF_CHECK(top == std::isinf(l.s), "level-scale", what << " level " << id << " scale " << l.s);
      if (top) { VF_CHECK(l.w == 1 && l.h == 1, "single-cell-level", what << " " << l.str()); }
      prev = l.s;
      auto up = [&](int v) { return std::isinf(l.s) ? 0 : (int)std::floor((v + 0.5) * s / l.s); };
      struct Acc { double low = -1, hi = -1; bool all = true; C w1, w2; };
      std::map<C, Acc, CLess> acc;
      for (auto &h : hist) {
        C q{up(h.first.x), up(h.first.y)};
        VF_CHECK(m.has_cell(q), "level-coverage", what << " level " << id << " misses " << cs(h.first));
        auto &a = acc[q];
        if (a.low < h.second.back()) { a.low = h.second.back(); a.w1 = h.first; }
        for (double v : h.second) { a.hi = std::max(a.hi, v); }
      }
      for (auto &a : acc) {
        double v = oie->estimate_obstacle_impact(m[a.first]);
        if (id == 0) {
          auto &r = (*ref)[a.first];
          VF_CHECK(near(v, a.second.low, 1e-12) && near(m[a.first].occupancy().prob_occ, r.occupancy().prob_occ, 0), "finest-content:" + kn,
                   what << " at " << cs(a.first) << ": " << v << " ordinary map " << a.second.low);
          continue;
        }
        count("bounds_checked");
        VF_CHECK(a.second.low <= v + 1e-6, "bound:" + std::string(kMapKinds[kind]), what << " level " << id << " cell " << cs(a.first) << " promises " << v << " but "
                 << cs(a.second.w1) << " has " << a.second.low);
        double loosest = std::max(prior, a.second.hi);
        VF_CHECK(v <= loosest + 1e-6, "too-loose:" + std::string(kMapKinds[kind]), what << " level " << id << " cell " << cs(a.first) << " promises " << v << " nothing below ever exceeded " << loosest);
      }
    }
    // -- the map's own check of itself
    if (kind != 1 && kind != 3 && rng.chance(0.15)) { // every level by cells of the finest one: tiles are too large for it
      m.set_scale_id(0);
      { Mute mute; VF_CHECK(m.validate(), "validate", what << ": a healthy map is said to be wrong"); }
      count("validated");
      if (k != 6 && 1 < m.scales_nm()) { // a level that promises too little
        unsigned id = rng.range(1, m.scales_nm() - 1);
        auto &cm = m.level(id);
        Geo l{cm}; C q; double low = -1;
        for (auto &h : hist) { C t{std::isinf(l.s) ? 0 : (int)std::floor((h.first.x + 0.5) * s / l.s), std::isinf(l.s) ? 0 : (int)std::floor((h.first.y + 0.5) * s / l.s)};
          if (low < h.second.back()) { low = h.second.back(); q = t; } }
        auto was = cm[q].clone(), bad = proto->clone();
        for (int i = 0; i < 20; ++i) { *bad += mk_obs(0.001, 1, 1, false); }
        double bi = oie->estimate_obstacle_impact(*bad);
        if (bi + 1e-3 < low) {
          cm.reset(q, *bad);
          { Mute mute; VF_CHECK(!m.validate(), "validate-spoiled", what << ": level " << id << " promises " << bi << " at " << cs(q) << " where " << low << " is"); }
          cm.reset(q, *was); count("spoiled_levels");
          { Mute mute; VF_CHECK(m.validate(), "validate-repaired", what); }
        }
      }
    }
    // -- choosing a resolution
    m.set_scale_id(0);
    for (int t = 0; t < 4; ++t) {
      double want = rng.chance(0.3) ? scales[rng.below(scales.size() - 1)] * rng.pickd({1, 0.999, 1.001}) : rng.uni(0, 3 * scales[scales.size() - 2]);
      m.rescale(want); count("rescales");
      VF_CHECK(want <= m.scale() && (m.scale_id() == 0 || scales[m.scale_id() - 1] < want), "rescale", what << ": asked " << want << " got level "
               << m.scale_id() << " of scale " << m.scale());
      double fine_scale;
      { SafeRescalableMap sm{m}; fine_scale = m.scale(); static_cast<GridMap &>(sm).rescale(rng.uni(0, 10)); }
      VF_CHECK(m.scale() == fine_scale, "scale-not-restored", what << ": " << m.scale() << " instead of " << fine_scale);
    }
    m.rescale(0);
    VF_CHECK(m.scale_id() == 0, "rescale", what << ": rescale(0) gives level " << m.scale_id());
    VF_CHECK(Geo{m} == f, "rescale-altered", what);
    for (auto &h : hist) {
      VF_CHECK(m[h.first].occupancy().prob_occ == (*ref)[h.first].occupancy().prob_occ, "rescale-altered", what << " at " << cs(h.first));
    }
    distinct(Hash().add(kind).add(k).add(f.w).add(f.h).add((uint64_t)hist.size()));
    eval();
  }
  if (rng.chance(0.01)) { sample(kn + " " + Geo{m}.str() + " levels " + std::to_string(levels)); }
}
} // namespace

FAMILY(uplain, 1500, 10000) { history<M3RSMRescalableGridMap<UnboundedPlainGridMap>>(rng, 2, 60, 20); }
FAMILY(uplain_far, 400, 2000) { history<M3RSMRescalableGridMap<UnboundedPlainGridMap>>(rng, 2, 40, 70); }
FAMILY(ulazy, 200, 1000) { history<M3RSMRescalableGridMap<UnboundedLazyTiledGridMap>>(rng, 3, 40, 40); }
FAMILY(plain, 1000, 6000) { history<M3RSMRescalableGridMap<PlainGridMap>>(rng, 0, 60, 15); }
FAMILY(lazy, 200, 1000) { history<M3RSMRescalableGridMap<LazyTiledGridMap>>(rng, 1, 60, 15); }
VF_MAIN
