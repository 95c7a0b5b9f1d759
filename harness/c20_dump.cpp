// C20: dumped map images show the map as it is.
#include "cells_common.h"
#include "core/maps/rescalable_caching_grid_map.h"
#include "core/scan_matchers/m3rsm_engine.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#include "utils/map_dumpers.h"
#include <sys/stat.h>
using namespace vf;
REQUIRE_EVENTS("overwritten_images", 100)
REQUIRE_EVENTS("images", 1500)
REQUIRE_EVENTS("pixels_compared", 1000000)
REQUIRE_EVENTS("pixels_known", 20000)
REQUIRE_EVENTS("grown_maps", 100)
REQUIRE_EVENTS("multires_images", 100)

namespace {
struct TmpDir {
  std::string path;
  TmpDir() { char b[] = "/tmp/vf_c20_XXXXXX"; if (!mkdtemp(b)) { perror("mkdtemp"); exit(3); } path = b; }
  ~TmpDir() { for (auto &f : made) { ::remove(f.c_str()); } ::remove(path.c_str()); }
  std::set<std::string> made;
};
std::string slurp(const std::string &f, bool &ok) {
  std::ifstream s(f, std::ios::binary);
  ok = s.good();
  return std::string(std::istreambuf_iterator<char>(s), std::istreambuf_iterator<char>());
}
struct Image { int w = 0, h = 0, maxv = 0; std::string px; };
// a netpbm reader: magic, then three numbers separated by white space or
// comments, then one white space
Image parse(const std::string &b, const std::string &what) {
  Image im;
  VF_CHECK(b.size() > 2 && b[0] == 'P' && b[1] == '5', "magic", what << ": starts with " << b.substr(0, 8));
  size_t i = 2;
  auto number = [&] {
    bool sep = false;
    for (;; ) {
      if (i < b.size() && isspace((unsigned char)b[i])) { ++i; sep = true; }
      else if (i < b.size() && b[i] == '#') { while (i < b.size() && b[i] != '\n') { ++i; } sep = true; }
      else { break; }
    }
    VF_CHECK(sep && i < b.size() && isdigit((unsigned char)b[i]), "header", what << ": no number at byte " << i);
    long v = 0;
    while (i < b.size() && isdigit((unsigned char)b[i]) && v < 100000000) { v = 10 * v + (b[i++] - '0'); }
    return v;
  };
  im.w = number(); im.h = number(); im.maxv = number();
  VF_CHECK(i < b.size() && isspace((unsigned char)b[i]), "header", what << ": no white space after the header");
  im.px = b.substr(i + 1);
  return im;
}
void verify(const std::string &bytes, const GridMap &m, const std::string &what, const std::map<C, double, CLess> *model = nullptr) {
  auto im = parse(bytes, what);
  Geo g{m};
  VF_CHECK(im.w == g.w && im.h == g.h, "header-size", what << ": header " << im.w << "x" << im.h << ", map " << g.str());
  VF_CHECK(0 < im.maxv && im.maxv < 256, "header-max", what << ": " << im.maxv);
  VF_CHECK(im.px.size() == (size_t)g.w * g.h, "length", what << ": " << im.px.size() << " pixels for " << g.str());
  std::map<double, int> by_occ;
  for (int r = 0; r < g.h; ++r) {
    for (int k = 0; k < g.w; ++k) {
      C c(k - g.o.x, g.h - 1 - r - g.o.y);
      int p = (unsigned char)im.px[(size_t)r * g.w + k];
      double occ = m.occupancy(c);
      if (model) { auto it = model->find(c); if (it != model->end()) { occ = it->second; count("pixels_known"); } }
      if (std::isnan(occ)) { continue; }
      if (occ == -1) { VF_CHECK(std::abs(p - im.maxv / 2.0) <= 1, "unknown", what << ": pixel of unknown " << cs(c) << " is " << p); continue; }
      double want = im.maxv * (1 - std::min(1.0, std::max(0.0, occ)));
      VF_CHECK(std::abs(p - want) <= 1 + 1e-6, "pixel", what << ": row " << r << " column " << k << " is " << p << ", cell " << cs(c) << " has occupancy " << occ);
      if (occ <= 0) { VF_CHECK(p == im.maxv, "white", what << ": free " << cs(c) << " is " << p); }
      if (1 <= occ) { VF_CHECK(p == 0, "black", what << ": occupied " << cs(c) << " is " << p); }
      auto ins = by_occ.emplace(occ, p);
      VF_CHECK(ins.second || ins.first->second == p, "same-occupancy", what << ": " << occ << " is both " << p << " and " << ins.first->second);
    }
  }
  int last = im.maxv;
  for (auto &kv : by_occ) { VF_CHECK(kv.second <= last, "monotone", what << ": occupancy " << kv.first << " brighter than a smaller one"); last = kv.second; }
  count("pixels_compared", im.px.size()); count("images"); eval();
  Hash h; h.add(g.w).add(g.h).add(g.o.x).add(g.o.y);
  for (auto &kv : by_occ) { h.add(kv.first); }
  distinct(h);
}
// reports whatever it is told, including the documented "unknown"
struct AnyCell : GridCell {
  AnyCell(double v = -1) : GridCell{Occupancy{v, 1}} {}
  std::unique_ptr<GridCell> clone() const override { return std::make_unique<AnyCell>(*this); }
  void operator+=(const AreaOccupancyObservation &o) override { _occupancy = o.occupancy; on_update(); }
};
} // namespace

FAMILY(history, 700, 15000) {
  TmpDir td;
  bool any = rng.chance(0.6);
  double base = rng.pickd({-1, 0.5, 0, 1, 0.25});
  std::shared_ptr<GridCell> proto;
  if (any) { proto = std::make_shared<AnyCell>(base); } else { proto = make_cell(rng.below(kCellsN)); }
  int kind = rng.below(4);
  GridMapParams gp{(int)rng.range(1, rng.chance(0.1) ? 300 : 60), (int)rng.range(1, rng.chance(0.1) ? 300 : 60), rng.pickd({0.1, 0.05, 1})};
  auto m = make_map(kind, proto, gp);
  std::map<C, double, CLess> model;
  auto base_name = td.path + "/" + (rng.chance(0.5) ? "map" : "dump_1");
  GridMapToPgmDumber d{base_name};
  WorldMapObserver<GridMap> &obs = d;
  std::vector<std::string> kept;
  for (int i = 0, n = rng.range(1, 4); i < n; ++i) {
    Geo g0{*m};
    for (int k = 0, c = rng.range(0, 40); k < c; ++k) {
      Geo g{*m};
      C at(rng.range(-g.o.x, g.w - g.o.x - 1), rng.range(-g.o.y, g.h - g.o.y - 1));
      if (is_unbounded(kind) && rng.chance(0.05)) { at = C(rng.range(-150, 150), rng.range(-150, 150)); }
      double v = rng.chance(0.3) ? rng.pickd({0, 1, 0.5, 1 / 255., 254 / 255., 1e-9, 1 - 1e-9}) : rng.unit();
      if (any && rng.chance(0.1)) { v = rng.pickd({-1, -0.2, 1.3, 2}); }
      auto o = mk_obs(v, 1, 1, rng.chance(0.5), {0, 0});
      m->update(at, o);
      if (any) { model[at] = v; }
    }
    Geo g1{*m};
    if (!(g0 == g1)) { count("grown_maps"); }
    auto f = base_name + "_" + std::to_string(i) + ".pgm";
    td.made.insert(f);
    if (rng.chance(0.2)) { // an earlier run's, larger image
      std::ofstream o{f, std::ios::binary}; o << "P5\n400 400\n255\n" << std::string(160000, 'x');
      count("overwritten_images");
    }
    obs.on_map_update(*m);
    bool ok; auto b = slurp(f, ok);
    VF_CHECK(ok, "file-missing", f);
    verify(b, *m, kMapKinds[kind], any ? &model : nullptr);
    VF_CHECK(Geo(*m) == g1, "map-changed", Geo(*m).str());
    for (size_t k = 0; k < kept.size(); ++k) { // earlier images stay
      bool ok2; auto old = slurp(base_name + "_" + std::to_string(k) + ".pgm", ok2);
      VF_CHECK(ok2 && old == kept[k], "earlier-image", "image " << k << " changed by dump " << i);
    }
    kept.push_back(b);
  }
}

// a long run: every image gets a file of its own
FAMILY(many_images, 4, 60) {
  TmpDir td;
  auto m = make_map(rng.below(4), std::make_shared<AnyCell>(0.5), {(int)rng.range(2, 4), (int)rng.range(2, 4), .1});
  GridMapToPgmDumber d{td.path + "/run"};
  WorldMapObserver<GridMap> &obs = d;
  std::vector<std::string> kept;
  int n = rng.range(258, 300);
  for (int i = 0; i < n; ++i) {
    m->update({0, 0}, mk_obs(rng.unit(), 1, 1, true, {0, 0}));
    obs.on_map_update(*m);
    auto f = td.path + "/run_" + std::to_string(i) + ".pgm";
    td.made.insert(f);
    bool ok; auto b = slurp(f, ok);
    VF_CHECK(ok, "file-missing", f);
    kept.push_back(b);
  }
  for (int i = 0; i < n; ++i) {
    bool ok; auto b = slurp(td.path + "/run_" + std::to_string(i) + ".pgm", ok);
    VF_CHECK(ok && b == kept[i], "earlier-image", "image " << i << " of " << n << " changed later");
  }
  count("images", n); eval();
}

FAMILY(multires, 120, 2500) {
  TmpDir td;
  auto proto = make_cell(rng.below(kCellsN));
  GridMapParams gp{(int)rng.range(1, 50), (int)rng.range(1, 50), 0.1};
  std::unique_ptr<GridMap> m;
  auto oie = std::make_shared<DiscrepancyOIE>();
  if (rng.chance(0.5)) { m = std::make_unique<M3RSMRescalableGridMap<UnboundedPlainGridMap>>(oie, proto, gp); }
  else { m = std::make_unique<M3RSMRescalableGridMap<UnboundedLazyTiledGridMap>>(oie, proto, gp); }
  for (int k = 0; k < 60; ++k) {
    m->update(C(rng.range(-30, 30), rng.range(-30, 30)), mk_obs(rng.unit(), .9, .9, rng.chance(0.5), {rng.uni(-3, 3), rng.uni(-3, 3)}));
  }
  for (double s : {0.0, 0.2, 0.4, 1.6, 100.0}) {
    m->rescale(s);
    auto f = td.path + "/level"; td.made.insert(f);
    { std::ofstream os(f, std::ios::binary); GridMapToPgmDumber::dump_map(os, *m); }
    bool ok; verify(slurp(f, ok), *m, "multires"); count("multires_images");
  }
}
VF_MAIN
