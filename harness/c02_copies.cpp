// C02: copies of maps and cells are isolated.
#include "cells_common.h"
using namespace vf;

REQUIRE_EVENTS("copies_made", 2000)
REQUIRE_EVENTS("reads_checked", 200000)

namespace {
using Model = std::map<C, std::unique_ptr<GridCell>, CLess>;

template <typename MapT> struct Live {
  std::unique_ptr<MapT> m;
  Model model;
  Geo geo;
};

Model clone_model(const Model &m) {
  Model r;
  for (auto &kv : m) { r[kv.first] = kv.second->clone(); }
  return r;
}

template <typename MapT>
void check_all(const std::vector<Live<MapT>> &live, const std::set<C, CLess> &touched,
               const GridCell &proto, bool unb, const std::string &what,
               const std::string &kind) {
  for (size_t i = 0; i < live.size(); ++i) {
    Geo g{*live[i].m};
    VF_CHECK(g == live[i].geo, "geometry-leak:" + kind,
             what << ": copy " << i << " " << live[i].geo.str() << " became " << g.str());
    for (auto &c : touched) {
      if (!unb && !g.covers(c)) { continue; }
      auto it = live[i].model.find(c);
      double want = it == live[i].model.end() ? proto.occupancy().prob_occ
                                              : it->second->occupancy().prob_occ;
      double got = (*live[i].m)[c].occupancy().prob_occ;
      VF_CHECK(near(got, want), "isolation:" + kind,
               what << ": copy " << i << " of " << live.size() << " reads " << got << " at "
               << cs(c) << ", own history gives " << want);
      count("reads_checked");
    }
  }
}

template <typename MapT>
void copies(Rng &rng, const std::string &kind, bool unb, int n_ops, int spread) {
  std::shared_ptr<GridCell> proto;
  if (rng.chance(0.5)) { proto = std::make_shared<HistCell>(rng.unit()); }
  else { proto = make_cell(rng.below(kCellsN)); }
  GridMapParams par{(int)rng.range(1, 300), (int)rng.range(1, 300), 0.1};
  std::vector<Live<MapT>> live;
  auto first = std::make_unique<MapT>(proto, par);
  Geo g0{*first};
  live.push_back(Live<MapT>{std::move(first), Model{}, g0});
  std::set<C, CLess> touched;
  std::vector<C> hot;
  for (int i = 0; i < 12; ++i) {
    hot.push_back(C(rng.range(-spread, spread), rng.range(-spread, spread)));
  }
  auto coord = [&](const Live<MapT> &l) {
    C c = rng.chance(0.7) ? rng.pick(hot)
                          : C(rng.range(-spread, spread), rng.range(-spread, spread));
    if (!unb) {
      c.x = std::max(-l.geo.o.x, std::min(l.geo.w - 1 - l.geo.o.x, c.x));
      c.y = std::max(-l.geo.o.y, std::min(l.geo.h - 1 - l.geo.o.y, c.y));
    }
    return c;
  };
  uint64_t trace = 0;
  for (int i = 0; i < n_ops; ++i) {
    int t = rng.below(12);
    size_t a = rng.below(live.size()), b = rng.below(live.size());
    trace = mix64(trace ^ (t * 131 + a * 17 + b));
    std::ostringstream w; w << "op " << i << " ";
    if (t < 5) {
      C c = coord(live[a]);
      auto o = tame_obs(rng);
      live[a].m->update(c, o);
      auto &mc = live[a].model[c];
      if (!mc) { mc = proto->clone(); }
      *mc += o;
      live[a].geo = Geo{*live[a].m};
      touched.insert(c);
      w << "update copy " << a << " at " << cs(c);
    } else if (t < 7) {
      C c = coord(live[a]);
      auto nc = proto->clone(); *nc += tame_obs(rng);
      live[a].m->reset(c, *nc);
      live[a].model[c] = nc->clone();
      *nc += tame_obs(rng);
      live[a].geo = Geo{*live[a].m};
      touched.insert(c);
      w << "reset copy " << a << " at " << cs(c);
    } else if (t < 9 && live.size() < 6) {
      live.push_back(Live<MapT>{std::make_unique<MapT>(*live[a].m), clone_model(live[a].model),
                                live[a].geo});
      count("copies_made");
      w << "copy of " << a;
    } else if (t < 10) {
      *live[b].m = *live[a].m;
      if (a != b) {
        live[b].model = clone_model(live[a].model);
        live[b].geo = live[a].geo;
      }
      count("assignments");
      w << "assign " << a << " -> " << b;
    } else if (t < 11 && 1 < live.size()) {
      live.erase(live.begin() + a);
      count("destroyed");
      w << "destroy " << a;
    } else {
      auto tmp = std::make_unique<MapT>(std::move(*live[a].m));
      live[a].m = std::move(tmp);
      w << "move " << a;
    }
    check_all(live, touched, *proto, unb, w.str(), kind);
    distinct(Hash().add(trace).add((uint64_t)live.size()));
  }
  eval();
  sample(kind + " final copies " + std::to_string(live.size()) + " touched cells "
         + std::to_string(touched.size()) + " ops " + std::to_string(n_ops));
}
} // namespace

FAMILY(lazy, 300, 6000) { copies<LazyTiledGridMap>(rng, "lazy", false, 50, 140); }
FAMILY(ulazy, 300, 6000) { copies<UnboundedLazyTiledGridMap>(rng, "ulazy", true, 50, 300); }
FAMILY(ulazy_dense, 300, 6000) { copies<UnboundedLazyTiledGridMap>(rng, "ulazy", true, 80, 4); }

// a clone equals its original and then lives its own life
FAMILY(cell_clone, 20000, 400000) {
  int k = rng.below(kCellsN);
  auto proto = make_cell(k);
  std::unique_ptr<GridCell> a = proto->clone(), ref_a = proto->clone(), ref_b = proto->clone();
  std::vector<AreaOccupancyObservation> h;
  int n = rng.range(0, 8);
  for (int i = 0; i < n; ++i) {
    auto o = tame_obs(rng);
    *a += o; *ref_a += o; *ref_b += o;
  }
  auto b = a->clone();
  VF_CHECK(typeid(*b) == typeid(*a), std::string("clone-type:") + kCells[k], typeid(*b).name());
  for (int i = 0; i < 8; ++i) {
    auto probe = tame_obs(rng);
    std::string why;
    VF_CHECK(same_cell(*a, *ref_a, probe, &why), std::string("clone:") + kCells[k],
             "original after step " << i << ": " << why);
    VF_CHECK(same_cell(*b, *ref_b, probe, &why), std::string("clone:") + kCells[k],
             "clone after step " << i << ": " << why);
    count("reads_checked", 2);
    auto o = tame_obs(rng);
    if (rng.chance(0.5)) { *a += o; *ref_a += o; } else { *b += o; *ref_b += o; }
  }
  VF_CHECK(near(proto->occupancy().prob_occ, make_cell(k)->occupancy().prob_occ),
           std::string("clone-proto:") + kCells[k], "");
  eval();
}
VF_MAIN
