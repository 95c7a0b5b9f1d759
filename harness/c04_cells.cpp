// C04: cell models stay valid, follow their formula and direction.
#include "cells_common.h"
using namespace vf;

REQUIRE_EVENTS("observations", 100000)
REQUIRE_EVENTS("invalid_observations", 2000)
REQUIRE_EVENTS("total_conflicts", 50)

namespace {
using LD = long double;

// Independent executable models: belief masses are tracked as products of
// plausibilities (Dempster's rule is multiplicative in commonalities).
struct Ref {
  int kind; double base;
  std::vector<AreaOccupancyObservation> h; // valid ones
  double p() const {
    switch (kind) {
    case 0: return h.empty() ? base : h.back().occupancy.prob_occ;
    case 1: {
      LD p = 0.5;
      for (auto &o : h) { p = p + (o.occupancy.prob_occ - p) * (LD)o.quality; }
      return p;
    }
    case 2: {
      if (h.empty()) { return 0.5; }
      LD s = 0;
      for (auto &o : h) { s += 0.5L + (o.occupancy.prob_occ - 0.5L) * o.quality; }
      return s / h.size();
    }
    case 5: {
      if (h.empty()) { return -1; }
      LD s = 0;
      for (auto &o : h) { if (0.5 < o.occupancy.prob_occ) { s += o.occupancy.prob_occ; } }
      return s / h.size();
    }
    default: {
      LD o, e, u; masses(o, e, u);
      return kind == 3 ? (o + e == 0 ? 0.5L : o / (o + e)) : o + u / 2;
    }
    }
  }
  void masses(LD &o, LD &e, LD &u) const {
    LD pu = 1, po = 1, pe = 1;
    for (auto &ob : h) {
      LD q = (LD)ob.occupancy.estimation_quality * ob.quality;
      LD mo = ob.occupancy.prob_occ * q, me = (1 - (LD)ob.occupancy.prob_occ) * q, mu = 1 - q;
      pu *= mu; po *= mo + mu; pe *= me + mu;
      LD k = std::max({pu, po, pe});
      if (0 < k) { pu /= k; po /= k; pe /= k; }
    }
    u = pu; o = po - pu; e = pe - pu;
    LD w = u + o + e;
    u /= w; o /= w; e /= w;
  }
  Point2D obst() const {
    LD x = 0, y = 0; int n = 0;
    for (auto &o : h) {
      if (o.occupancy.prob_occ <= 0.5) { continue; }
      x += o.obstacle.x; y += o.obstacle.y; ++n;
    }
    return n ? Point2D{(double)(x / n), (double)(y / n)} : Point2D{0, 0};
  }
  double discrepancy(const AreaOccupancyObservation &a) const {
    if (kind < 3) { return std::abs(p() - a.occupancy.prob_occ); }
    if (kind == 5) {
      auto ob = obst();
      double dx = ob.x - a.obstacle.x, dy = ob.y - a.obstacle.y;
      return 1 - std::exp(-(dx * dx + dy * dy) / 0.05);
    }
    LD o, e, u; masses(o, e, u);
    LD q = (LD)a.occupancy.estimation_quality * a.quality;
    LD mo = a.occupancy.prob_occ * q, me = (1 - (LD)a.occupancy.prob_occ) * q, mu = 1 - q;
    if (kind == 6) { // mass on which both agree that it is occupied
      return 1 - mo * o;
    }
    LD conflict = mo * e + me * o, d_occ = std::abs(mo - o), unk = (mu + u) / 2;
    return unk / 2 + (1 - unk) * (conflict + d_occ) / 2;
  }
};

void check_valid(const GridCell &c, int k, bool observed, const std::string &what) {
  auto o = c.occupancy();
  std::string kn = kCells[k];
  bool unknown_ok = k == 5 && !observed && o.prob_occ == -1;
  VF_CHECK(unknown_ok || (std::isfinite(o.prob_occ) && -1e-12 <= o.prob_occ && o.prob_occ <= 1 + 1e-12),
           "range:" + kn, what << ": occupancy " << o.prob_occ);
  VF_CHECK(std::isfinite(o.estimation_quality) && -1e-12 <= o.estimation_quality &&
           o.estimation_quality <= 1 + 1e-12, "quality-range:" + kn,
           what << ": quality " << o.estimation_quality);
  VF_CHECK(double(c) == o.prob_occ || near(double(c), o.prob_occ), "as-double:" + kn, double(c));
  VF_CHECK(c.is_unknown() == !observed, "unknown-flag:" + kn, what);
}
std::string os_(const AreaOccupancyObservation &o) {
  std::ostringstream os; os << std::setprecision(17) << "obs p=" << o.occupancy.prob_occ << " eq="
    << o.occupancy.estimation_quality << " q=" << o.quality << " occ=" << o.is_occupied
    << " at (" << o.obstacle.x << "," << o.obstacle.y << ")";
  return os.str();
}
AreaOccupancyObservation invalid_obs(Rng &rng) {
  double n = std::nan("");
  switch (rng.below(3)) {
  case 0: return mk_obs(n, rng.unit(), rng.unit());
  case 1: return mk_obs(rng.unit(), n, rng.unit());
  default: return AreaOccupancyObservation{rng.chance(0.5), Occupancy::invalid(), {1, 1}, rng.unit()};
  }
}
AreaOccupancyObservation hostile_obs(Rng &rng) {
  auto v = [&]() {
    switch (rng.below(8)) {
    case 0: case 1: return 0.0;
    case 2: case 3: return 1.0;
    case 4: return 0.5;
    case 5: return rng.chance(0.5) ? 1e-17 : 1 - 1e-16;
    default: return rng.unit();
    }
  };
  return mk_obs(v(), v(), v(), rng.chance(0.5),
                Point2D{rng.uni(-1e3, 1e3), rng.uni(-1e3, 1e3)});
}
} // namespace

// the reported value follows the model's formula over the whole history
FAMILY(formula, 12000, 200000) {
  int k = rng.below(kCellsN);
  std::string kn = kCells[k];
  double base = rng.unit();
  auto c = make_cell(k, base)->clone();
  Ref r{k, base, {}};
  int n = rng.range(1, rng.chance(0.1) ? 200 : 25);
  double bias = rng.unit(), trust = rng.chance(0.3) ? std::pow(10, -rng.uni(0.5, 4)) : 1; // hardly trusted observations
  for (int i = 0; i < n; ++i) {
    auto o = tame_obs(rng);
    if (rng.chance(0.5)) { o.occupancy.prob_occ = rng.chance(bias) ? rng.uni(0.5, 0.95) : rng.uni(0.05, 0.5); }
    if (rng.chance(0.02)) { o.quality = 0; }
    if (trust < 1 && rng.chance(0.8)) { o.quality *= trust; count("hardly_trusted"); }
    if (k != 0 && rng.chance(0.1)) {
      *c += invalid_obs(rng);
      count("invalid_observations");
    }
    *c += o; r.h.push_back(o);
    count("observations");
    VF_CHECK(near(c->occupancy().prob_occ, r.p(), 1e-7), "formula:" + kn,
             "after " << r.h.size() << " obs reads " << c->occupancy().prob_occ
             << ", formula gives " << r.p() << "; last " << os_(o));
    if (k == 3) {
      LD a, e, u; r.masses(a, e, u);
      VF_CHECK(near(c->occupancy().estimation_quality, a + e, 1e-7), "formula-quality:" + kn,
               c->occupancy().estimation_quality << " vs " << (double)(a + e));
    }
    auto probe = tame_obs(rng);
    if (rng.chance(0.5)) { probe.obstacle = Point2D{r.obst().x + rng.uni(-.3, .3), r.obst().y + rng.uni(-.3, .3)}; }
    VF_CHECK(near(c->discrepancy(probe), r.discrepancy(probe), 1e-7), "discrepancy-formula:" + kn,
             c->discrepancy(probe) << " vs " << r.discrepancy(probe) << " for " << os_(probe));
    check_valid(*c, k, true, "formula history");
  }
  distinct(Hash().add(k).add(c->occupancy().prob_occ));
  sample(kn + " after " + std::to_string(n) + " observations: " + std::to_string(c->occupancy().prob_occ));
  eval();
}

// evidence at the edges: exactly undecided, next to worthless, next to totally conflicting
FAMILY(edge_evidence, 12000, 150000) {
  int k = rng.below(kCellsN);
  std::string kn = kCells[k];
  double base = rng.unit();
  auto c = make_cell(k, base)->clone();
  Ref r{k, base, {}};
  int n = rng.range(1, 6), mode = rng.below(3);
  for (int i = 0; i < n; ++i) {
    auto o = tame_obs(rng);
    if (mode == 0) {
      o.occupancy.prob_occ = rng.chance(0.6) ? 0.5 : rng.uni(0.3, 0.9);
      count("exactly_half");
    } else if (mode == 1) {
      (rng.chance(0.5) ? o.quality : o.occupancy.estimation_quality) = std::pow(10, -rng.uni(5, 10.5));
      count("next_to_worthless");
    } else {
      double d = std::pow(10, -rng.uni(3, 11));
      o.occupancy = Occupancy{rng.chance(0.5) ? 1 - d : d, 1}; o.quality = 1;
      count("next_to_certain");
    }
    *c += o; r.h.push_back(o);
    VF_CHECK(near(c->occupancy().prob_occ, r.p(), 1e-6), "edge-formula:" + kn,
             "after " << r.h.size() << " obs reads " << c->occupancy().prob_occ
             << ", formula gives " << (double)r.p() << "; last " << os_(o));
    check_valid(*c, k, true, "edge history");
  }
  distinct(Hash().add(k).add(mode).add(c->occupancy().prob_occ));
  eval();
}

FAMILY(hostile, 40000, 600000) {
  int k = rng.below(kCellsN);
  std::string kn = kCells[k];
  auto c = make_cell(k, rng.unit())->clone();
  bool observed = false;
  int n = rng.range(1, 40);
  for (int i = 0; i < n; ++i) {
    auto before = c->occupancy();
    auto probe = hostile_obs(rng);
    double d = c->discrepancy(probe);
    VF_CHECK(std::isfinite(d) && -1e-9 <= d && d <= 1 + 1e-9, "discrepancy-range:" + kn,
             d << " for " << os_(probe) << ", cell " << before.prob_occ);
    double d2 = c->discrepancy(probe);
    VF_CHECK(near(d, d2), "discrepancy-pure:" + kn, "");
    VF_CHECK(near(before.prob_occ, c->occupancy().prob_occ), "discrepancy-pure:" + kn, "");
    if (k != 0 && rng.chance(0.15)) {
      auto o = invalid_obs(rng);
      *c += o;
      VF_CHECK(near(before.prob_occ, c->occupancy().prob_occ) &&
               near(before.estimation_quality, c->occupancy().estimation_quality) &&
               near(c->discrepancy(probe), d), "invalid-changes:" + kn, os_(o));
      check_valid(*c, k, observed, "after " + os_(o));
      count("invalid_observations");
      continue;
    }
    auto o = hostile_obs(rng);
    if (rng.chance(0.3)) { // certain
      o.occupancy = Occupancy{rng.chance(0.5) ? 1.0 : 0.0, 1.0}; o.quality = 1;
    }
    *c += o;
    count("observations");
    bool was_observed = observed;
    observed = true;
    std::ostringstream w; w << std::setprecision(17) << "step " << i << " from " << before.prob_occ << " by " << os_(o);
    check_valid(*c, k, true, w.str());
    double a = c->occupancy().prob_occ;
    if (o.occupancy.prob_occ == 1 && o.occupancy.estimation_quality == 1 && o.quality == 1) {
      VF_CHECK(before.prob_occ - 1e-9 <= a, "direction:" + kn, w.str() << " became " << a);
      count("certain_occupied");
      if (before.prob_occ == 0 && (k == 3 || k == 4 || k == 6)) { count("total_conflicts"); }
    }
    if (o.occupancy.prob_occ == 0 && o.occupancy.estimation_quality == 1 && o.quality == 1 &&
        (k != 5 || was_observed)) {
      VF_CHECK(a <= before.prob_occ + 1e-9, "direction:" + kn, w.str() << " became " << a);
      count("certain_empty");
    }
    if (o.quality == 0 && (k == 1 || k == 3 || k == 4 || k == 6)) {
      VF_CHECK(near(a, before.prob_occ), "zero-quality:" + kn, w.str() << " became " << a);
      count("zero_quality");
    }
    distinct(Hash().add(k).add(a));
  }
  eval();
}

// very long histories do not drift out of range or away from the formula
FAMILY(long_history, 60, 600) {
  int k = rng.below(kCellsN);
  std::string kn = kCells[k];
  auto c = make_cell(k, 0.5)->clone();
  LD sum = 0, aff = 0.5, gs = 0; double last = 0.5;
  double lo = rng.uni(0, 0.5), hi = rng.uni(lo, 1);
  int n = rng.chance(0.4) ? 70000 : 20000; // also beyond 2^15 and 2^16
  for (int i = 0; i < n; ++i) {
    auto o = mk_obs(rng.uni(lo, hi), rng.uni(0.3, 1), rng.uni(0.3, 1), rng.chance(0.5),
                    Point2D{rng.uni(-1, 1), rng.uni(-1, 1)});
    *c += o;
    last = o.occupancy.prob_occ;
    sum += 0.5L + (o.occupancy.prob_occ - 0.5L) * o.quality;
    aff += (o.occupancy.prob_occ - aff) * (LD)o.quality;
    if (0.5 < o.occupancy.prob_occ) { gs += o.occupancy.prob_occ; }
    if (i % 100 == 0 || i + 1 == n) { check_valid(*c, k, true, "long history"); }
  }
  count("observations", n);
  double got = c->occupancy().prob_occ;
  double want = k == 0 ? last : k == 1 ? (double)aff : k == 2 ? (double)(sum / n)
              : k == 5 ? (double)(gs / n) : got;
  VF_CHECK(near(got, want, 1e-7), "long-formula:" + kn, got << " vs " << want);
  eval();
}
VF_MAIN
