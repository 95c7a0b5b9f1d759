// C03: saved state restores to an equivalent map / cell / value stream.
#include "cells_common.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#include "core/scan_matchers/m3rsm_engine.h"
using namespace vf;

REQUIRE_EVENTS("maps_restored", 200)
REQUIRE_EVENTS("cells_compared", 50000)
REQUIRE_EVENTS("truncated_loads", 500)
REQUIRE_EVENTS("post_restore_updates", 2000)

namespace {
using Bytes = std::vector<char>;

std::unique_ptr<UnboundedPlainGridMap> rnd_map(Rng &rng, std::shared_ptr<GridCell> proto,
                                               int n_ops, int spread) {
  GridMapParams p{(int)rng.range(1, 14), (int)rng.range(1, 14), rng.pickd({0.05, 0.1, 1, 0.3})};
  auto m = std::make_unique<UnboundedPlainGridMap>(proto, p);
  for (int i = 0; i < n_ops; ++i) {
    m->update({(int)rng.range(-spread, spread), (int)rng.range(-spread, spread)}, tame_obs(rng));
  }
  return m;
}

void compare_maps(const GridMap &a, const GridMap &b, Rng &rng, const std::string &key,
                  const std::string &what) {
  Geo ga{a}, gb{b};
  VF_CHECK(ga == gb, "geometry:" + key, what << ": " << ga.str() << " vs " << gb.str());
  auto probe = tame_obs(rng);
  for (int x = -ga.o.x - 1; x <= ga.w - ga.o.x; ++x) {
    for (int y = -ga.o.y - 1; y <= ga.h - ga.o.y; ++y) {
      std::string why;
      VF_CHECK(same_cell(a[{x, y}], b[{x, y}], probe, &why), "content:" + key,
               what << ": cell " << cs({x, y}) << ": " << why);
      count("cells_compared");
    }
  }
}

void apply_same(GridMap &a, GridMap &b, Rng &rng, int n, int spread) {
  for (int i = 0; i < n; ++i) {
    C c((int)rng.range(-spread, spread), (int)rng.range(-spread, spread));
    auto o = tame_obs(rng);
    a.update(c, o); b.update(c, o);
    count("post_restore_updates");
  }
}
} // namespace

FAMILY(primitives, 4000, 100000) {
  Serializer s(rng.below(3) ? 0 : rng.below(200));
  struct V { int t; long i; double d; bool b; Bytes bytes; };
  std::vector<V> vs;
  int n = rng.range(1, 20);
  for (int k = 0; k < n; ++k) {
    V v{(int)rng.below(6), (long)rng.next(), rng.chance(0.2) ? std::nan("") : rng.uni(-1e9, 1e9),
        rng.chance(0.5), {}};
    if (rng.chance(0.1)) { v.d = std::numeric_limits<double>::infinity(); }
    switch (v.t) {
    case 0: s << (int)v.i; break;
    case 1: s << v.d; break;
    case 2: s << v.b; break;
    case 3: s << (size_t)v.i; break;
    case 4: s << (char)v.i; break;
    default:
      v.bytes.resize(rng.below(12));
      for (auto &c : v.bytes) { c = (char)rng.next(); }
      s << v.bytes;
    }
    vs.push_back(v);
  }
  Bytes data = s.result();
  size_t lead = rng.below(9);
  Bytes shifted(lead, 'x');
  shifted.insert(shifted.end(), data.begin(), data.end());
  Deserializer d(shifted, lead);
  for (auto &v : vs) {
    switch (v.t) {
    case 0: { int x; d >> x; VF_CHECK(x == (int)v.i, "primitive:int", x); break; }
    case 1: { double x; d >> x; VF_CHECK(std::memcmp(&x, &v.d, 8) == 0, "primitive:double", x); break; }
    case 2: { bool x; d >> x; VF_CHECK(x == v.b, "primitive:bool", x); break; }
    case 3: { size_t x; d >> x; VF_CHECK(x == (size_t)v.i, "primitive:size", x); break; }
    case 4: { char x; d >> x; VF_CHECK(x == (char)v.i, "primitive:char", int(x)); break; }
    default:
      for (auto c : v.bytes) { char x; d >> x; VF_CHECK(x == c, "primitive:bytes", int(x)); }
    }
  }
  VF_CHECK(d.pos() == shifted.size(), "primitive:pos", d.pos() << " of " << shifted.size());
  eval();
}

FAMILY(cell_roundtrip, 8000, 200000) {
  int k = rng.below(kCellsN);
  auto a = make_cell(k, rng.unit())->clone(), b = make_cell(k, rng.unit())->clone();
  for (int i = rng.range(0, 10); 0 < i; --i) { *a += tame_obs(rng); }
  for (int i = rng.range(0, 5); 0 < i; --i) { *b += tame_obs(rng); }
  auto bytes = a->serialize();
  Bytes shifted(rng.below(9), 'y');
  size_t lead = shifted.size();
  shifted.insert(shifted.end(), bytes.begin(), bytes.end());
  size_t end = b->deserialize(shifted, lead);
  std::string kn = kCells[k], why;
  VF_CHECK(end == shifted.size(), "cell-pos:" + kn, end << " of " << shifted.size());
  for (int i = 0; i < 5; ++i) {
    VF_CHECK(same_cell(*a, *b, tame_obs(rng), &why), (i ? "cell-future:" : "cell-value:") + kn,
             "after " << i << " common updates: " << why);
    VF_CHECK(a->serialize().size() == b->serialize().size(), "cell-size:" + kn, "");
    auto o = tame_obs(rng);
    *a += o; *b += o;
    count("cells_compared");
  }
  distinct(Hash().add(k).add(a->occupancy().prob_occ));
  eval();
}

FAMILY(uplain_roundtrip, 500, 10000) {
  int k = rng.below(kCellsN);
  std::string kn = kCells[k];
  auto proto = make_cell(k);
  auto a = rnd_map(rng, proto, rng.range(0, 60), 25);
  auto b = rnd_map(rng, proto, rng.range(0, 20), 30);
  auto bytes = a->save_state();
  b->load_state(bytes);
  compare_maps(*a, *b, rng, kn, "restored");
  VF_CHECK(b->save_state() == bytes, "resave:" + kn, "saving the restored map gives other bytes");
  VF_CHECK(a->save_state() == bytes, "save-pure:" + kn, "saving twice gives other bytes");
  count("maps_restored");
  apply_same(*a, *b, rng, 30, 30);
  compare_maps(*a, *b, rng, kn, "after common updates");
  VF_CHECK(a->save_state() == b->save_state(), "resave-future:" + kn, "");
  distinct(Hash().add(k).add(a->width()).add(a->height()).add((uint64_t)bytes.size()));
  sample(kn + " map " + Geo{*a}.str() + " bytes " + std::to_string(bytes.size()));
  eval();
}


namespace {
using ResMap = RescalableCachingGridMap<UnboundedPlainGridMap>;
using M3Map = M3RSMRescalableGridMap<UnboundedPlainGridMap>;

std::unique_ptr<M3Map> mk_m3(std::shared_ptr<GridCell> proto, GridMapParams p) {
  return std::make_unique<M3Map>(std::make_shared<OccupancyOIE>(), proto, p);
}
std::unique_ptr<ResMap> mk_res(std::shared_ptr<GridCell> proto, GridMapParams p) {
  return std::make_unique<ResMap>(proto, p);
}

template <typename MapT>
void compare_levels(MapT &a, MapT &b, Rng &rng, const std::string &key, const std::string &what) {
  VF_CHECK(a.scales_nm() == b.scales_nm(), "levels:" + key,
           what << ": " << a.scales_nm() << " vs " << b.scales_nm());
  for (unsigned id = 0; id < a.scales_nm(); ++id) {
    a.set_scale_id(id); b.set_scale_id(id);
    compare_maps(a, b, rng, key, what + " level " + std::to_string(id));
  }
  a.set_scale_id(MapT::finest_scale_id()); b.set_scale_id(MapT::finest_scale_id());
}

template <typename MapT, typename MkT>
void multi(Rng &rng, MkT mk, const std::string &name) {
  int k = rng.below(kCellsN);
  std::string key = name + ":" + kCells[k];
  auto proto = make_cell(k);
  double s = rng.pickd({0.1, 0.25, 1});
  auto a = mk(proto, GridMapParams{(int)rng.range(2, 12), (int)rng.range(2, 12), s});
  auto b = mk(proto, GridMapParams{(int)rng.range(2, 12), (int)rng.range(2, 12), rng.pickd({0.1, 1})});
  for (int i = rng.range(0, 30); 0 < i; --i) {
    a->update({(int)rng.range(-20, 20), (int)rng.range(-20, 20)}, tame_obs(rng));
  }
  for (int i = rng.range(0, 10); 0 < i; --i) {
    b->update({(int)rng.range(-20, 20), (int)rng.range(-20, 20)}, tame_obs(rng));
  }
  // whatever levels are active at the moment
  if (rng.chance(0.5)) { a->set_scale_id(rng.below(a->scales_nm())); }
  if (rng.chance(0.5)) { b->set_scale_id(rng.below(b->scales_nm())); count("coarse_receivers"); }
  auto level = a->scale_id();
  auto bytes = a->save_state();
  VF_CHECK(a->scale_id() == level, "active-level-moved-by-save:" + key, a->scale_id() << " vs " << level);
  b->load_state(bytes);
  VF_CHECK(b->scale_id() == MapT::finest_scale_id(), "active-level:" + key, b->scale_id());
  compare_levels(*a, *b, rng, key, "restored");
  VF_CHECK(b->save_state() == bytes, "resave:" + key, "");
  apply_same(*a, *b, rng, 12, 26);
  compare_levels(*a, *b, rng, key, "after common updates");
  count("maps_restored");
  distinct(Hash().add(k).add(a->scales_nm()).add((uint64_t)bytes.size()));
  eval();
}

// exact-size storage: any overread is a heap overflow the sanitizer sees
Bytes exact(const Bytes &b, size_t n) { return Bytes(b.begin(), b.begin() + n); }
} // namespace

FAMILY(multires_roundtrip, 100, 2000) { multi<ResMap>(rng, mk_res, "multires"); }
FAMILY(m3rsm_roundtrip, 100, 2000) { multi<M3Map>(rng, mk_m3, "m3rsm"); }

FAMILY(truncated, 600, 12000) {
  int k = rng.below(kCellsN);
  auto proto = make_cell(k);
  bool multi_res = rng.chance(0.4);
  Bytes bytes;
  if (multi_res) {
    auto a = mk_res(proto, GridMapParams{4, 5, 0.1});
    for (int i = 0; i < 6; ++i) { a->update({(int)rng.range(-6, 6), (int)rng.range(-6, 6)}, tame_obs(rng)); }
    bytes = a->save_state();
  } else {
    bytes = rnd_map(rng, proto, 5, 6)->save_state();
  }
  size_t cut = rng.chance(0.3) ? rng.below(std::min<size_t>(40, bytes.size())) : rng.below(bytes.size());
  if (multi_res && rng.chance(0.3)) { // whole levels are missing, maybe all of them
    std::vector<size_t> ends{0};
    for (size_t pos = 0, sz; pos + sizeof sz <= bytes.size(); ends.push_back(pos)) { std::memcpy(&sz, bytes.data() + pos, sizeof sz); pos += sizeof sz + sz; }
    cut = ends[rng.below(ends.size() - 1)]; count("levels_cut_off");
  }
  Bytes part = exact(bytes, cut);
  bool threw = false;
  try {
    if (multi_res) { mk_res(proto, GridMapParams{2, 2, 1})->load_state(part); }
    else { UnboundedPlainGridMap{proto, GridMapParams{2, 2, 1}}.load_state(part); }
  } catch (const std::exception &) { threw = true; }
  VF_CHECK(threw, "truncated-accepted", (multi_res ? "multires" : "plain") << ": " << cut << " of " << bytes.size() << " bytes were taken for a map");
  count("truncated_loads");
  count(threw ? "truncated_refused" : "truncated_accepted");
  eval();
}

// bytes of a map with another cell model or of another map kind
FAMILY(foreign, 300, 6000) {
  auto pa = make_cell(rng.below(kCellsN)), pb = make_cell(rng.below(kCellsN));
  auto a = rnd_map(rng, pa, 5, 6);
  Bytes bytes = a->save_state();
  bytes = exact(bytes, bytes.size());
  try {
    if (rng.chance(0.5)) { mk_res(pb, GridMapParams{2, 2, 1})->load_state(bytes); }
    else { UnboundedPlainGridMap{pb, GridMapParams{2, 2, 1}}.load_state(bytes); }
    count("foreign_accepted");
  } catch (const std::exception &) { count("foreign_refused"); }
  eval();
}
VF_MAIN
