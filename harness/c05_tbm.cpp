// C05: belief-function algebra.
#include "cells_common.h"
using namespace vf;
REQUIRE_EVENTS("combinations", 50000)
REQUIRE_EVENTS("conflict_redistributions", 10000)
REQUIRE_EVENTS("cell_updates", 50000)

namespace {
using LD = long double;
// masses indexed by the set of hypotheses still possible: bit0 = empty, bit1 = occupied
struct M { LD m[4]; };
M of(const TBM &t) { return M{{t.conflict(), t.empty(), t.occupied(), t.unknown()}}; }
TBM to(const M &m) { return TBM{(double)m.m[3], (double)m.m[1], (double)m.m[2], (double)m.m[0]}; }
M comb(const M &a, const M &b, bool conj) {
  M r{{0, 0, 0, 0}};
  for (int i = 0; i < 4; ++i) {
    for (int j = 0; j < 4; ++j) { r.m[conj ? (i & j) : (i | j)] += a.m[i] * b.m[j]; }
  }
  LD s = r.m[0] + r.m[1] + r.m[2] + r.m[3];
  for (auto &x : r.m) { x /= s; }
  return r;
}
bool same(const M &a, const M &b, double eps = 1e-9) {
  for (int i = 0; i < 4; ++i) { if (!near((double)a.m[i], (double)b.m[i], eps)) { return false; } }
  return true;
}
std::string str(const M &m) {
  std::ostringstream os; os << std::setprecision(12) << "{confl " << (double)m.m[0] << " empty " << (double)m.m[1]
    << " occ " << (double)m.m[2] << " unk " << (double)m.m[3] << "}";
  return os.str();
}
M rnd(Rng &rng) {
  M m; LD s = 0;
  int mode = rng.below(6);
  for (auto &x : m.m) {
    x = mode == 0 ? (rng.chance(0.5) ? 0 : rng.unit()) : mode == 1 ? std::pow(rng.unit(), 20) : rng.unit();
  }
  if (mode == 2) { for (auto &x : m.m) { x = 0; } m.m[rng.below(4)] = 1; }
  if (mode == 3) { m.m[0] = 0; }
  for (auto x : m.m) { s += x; }
  if (s == 0) { m.m[3] = s = 1; }
  for (auto &x : m.m) { x /= s; }
  return m;
}
void valid(const TBM &t, const std::string &what) {
  M m = of(t); LD s = 0;
  for (auto x : m.m) { VF_CHECK(std::isfinite((double)x) && -1e-12 <= x, "negative-mass", what << " " << str(m)); s += x; }
  VF_CHECK(near((double)s, 1), "mass-sum", what << " " << str(m) << " sum " << (double)s);
}
} // namespace

FAMILY(pairs, 60000, 1000000) {
  M a = rnd(rng), b = rnd(rng), c = rnd(rng);
  TBM ta = to(a), tb = to(b), tc = to(c);
  for (int conj = 0; conj < 2; ++conj) {
    auto op = [&](const TBM &x, const TBM &y) { return conj ? conjunctive(x, y) : disjunctive(x, y); };
    std::string n = conj ? "conjunctive" : "disjunctive";
    TBM r = op(ta, tb);
    valid(r, n);
    VF_CHECK(same(of(r), comb(a, b, conj)), "definition:" + n, str(a) << " with " << str(b) << " gives "
             << str(of(r)) << " expected " << str(comb(a, b, conj)));
    VF_CHECK(same(of(r), of(op(tb, ta))), "commutative:" + n, str(a) << " " << str(b));
    VF_CHECK(same(of(op(r, tc)), of(op(ta, op(tb, tc)))), "associative:" + n, str(a) << " " << str(b) << " " << str(c));
    VF_CHECK(same(of(ta), a) && same(of(tb), b), "operands-changed:" + n, "");
    count("combinations", 4);
  }
  VF_CHECK(same(of(conjunctive(ta, TBM{})), a) && same(of(conjunctive(TBM{}, ta)), a), "neutral", str(a));
  VF_CHECK(same(of(disjunctive(ta, TBM{})), M{{0, 0, 0, 1}}), "ignorance-absorbs", str(a));
  TBM n = ta;
  n.normalize_conflict();
  valid(n, "normalize_conflict");
  LD w = a.m[1] + a.m[2] + a.m[3];
  M want = w == 0 ? M{{0, 0, 0, 1}} : M{{0, a.m[1] / w, a.m[2] / w, a.m[3] / w}};
  VF_CHECK(n.conflict() == 0, "conflict-left", str(of(n)));
  if (w == 0 || 1e-9 < w) {
    VF_CHECK(same(of(n), want, 1e-6), "redistribution", str(a) << " gives " << str(of(n)) << " expected " << str(want));
  }
  count("conflict_redistributions");
  // scaling away from one is undone
  double k = std::exp(rng.uni(-5, 5));
  TBM sc{ta.unknown() * k, ta.empty() * k, ta.occupied() * k, ta.conflict() * k};
  sc.normalize();
  VF_CHECK(same(of(sc), a), "normalize", str(a) << " x " << k << " gives " << str(of(sc)));
  TBM zero{0, 0, 0, 0};
  zero.normalize();
  valid(zero, "normalize of zero");
  Hash h; for (auto x : a.m) { h.add((double)x); }
  distinct(h); eval();
  sample("conj " + str(a) + " with " + str(b) + " = " + str(comb(a, b, true)));
}

// any fold order of a chain gives the same result
FAMILY(folds, 3000, 60000) {
  int n = rng.range(2, 12);
  bool conj = rng.chance(0.5);
  auto op = [&](const TBM &x, const TBM &y) { return conj ? conjunctive(x, y) : disjunctive(x, y); };
  std::vector<TBM> ts; M ref = conj ? M{{0, 0, 0, 1}} : M{{1, 0, 0, 0}};
  for (int i = 0; i < n; ++i) {
    M m = rnd(rng); ref = comb(ref, m, conj); ts.push_back(to(m));
  }
  for (int k = 0; k < 3; ++k) {
    auto work = ts;
    rng.shuffle(work);
    while (1 < work.size()) {
      size_t i = rng.below(work.size() - 1);
      work[i] = op(work[i], work[i + 1]);
      valid(work[i], "fold");
      work.erase(work.begin() + i + 1);
      count("combinations");
    }
    VF_CHECK(same(of(work[0]), ref), conj ? "fold:conjunctive" : "fold:disjunctive",
             str(of(work[0])) << " expected " << str(ref));
  }
  eval();
}

FAMILY(conversion, 30000, 500000) {
  auto v = [&]() { switch (rng.below(5)) { case 0: return 0.0; case 1: return 1.0; default: return rng.unit(); } };
  double p = v(), eq = v(), q = v();
  auto o = mk_obs(p, eq, q, rng.chance(0.5));
  TBM t = AOO_to_TBM(o);
  valid(t, "from observation");
  double w = eq * q;
  VF_CHECK(near(t.occupied(), p * w) && near(t.empty(), (1 - p) * w) && near(t.unknown(), 1 - w) &&
           near(t.conflict(), 0), "to-belief", "p " << p << " w " << w << " gives " << str(of(t)));
  if (p == 1 && w == 1) { VF_CHECK(t.occupied() == 1 && t.empty() == 0, "certain-occupied", str(of(t))); }
  if (p == 0 && w == 1) { VF_CHECK(t.empty() == 1 && t.occupied() == 0, "certain-empty", str(of(t))); }
  if (w == 0) { VF_CHECK(t.unknown() == 1, "ignorance", str(of(t))); }
  auto back = TBM_to_O(t);
  VF_CHECK(-1e-12 <= back.prob_occ && back.prob_occ <= 1 + 1e-12, "from-belief-range", back.prob_occ);
  VF_CHECK(near(back.prob_occ, t.occupied() + t.unknown() / 2), "from-belief", back.prob_occ << " of " << str(of(t)));
  M m = rnd(rng);
  auto b2 = TBM_to_O(to(m));
  VF_CHECK(near(b2.prob_occ, (double)(m.m[2] + m.m[3] / 2)) && near(b2.estimation_quality, 1), "from-belief", str(m));
  TBM inv = AOO_to_TBM(AreaOccupancyObservation{true, Occupancy::invalid(), {0, 0}, 1});
  VF_CHECK(inv.unknown() == 1 && inv.occupied() == 0 && inv.empty() == 0 && inv.conflict() == 0, "invalid-to-ignorance", str(of(inv)));
  VF_CHECK(TBM_to_O(TBM{}).prob_occ == 0.5, "ignorance-is-half", "");
  // the cells' own combination agrees
  TbmUnknownEvenOccCell c1; CredibilistCell c2; TbmOccConsistentCell c3;
  auto o2 = tame_obs(rng), o3 = tame_obs(rng);
  for (auto &x : {o2, o3}) { c1 += x; c2 += x; c3 += x; }
  TBM e = conjunctive(AOO_to_TBM(o2), AOO_to_TBM(o3));
  e.normalize_conflict();
  VF_CHECK(same(of(c1.belief()), of(e)) && same(of(c2.belief()), of(e)) && same(of(c3.belief()), of(e)),
           "cell-belief", str(of(c1.belief())) << " " << str(of(c2.belief())) << " expected " << str(of(e)));
  count("conversions");
  distinct(Hash().add(p).add(eq).add(q)); eval();
}

// the belief a cell keeps is a valid one without conflict after any history, weak or contradictory
FAMILY(cell_histories, 8000, 100000) {
  TbmUnknownEvenOccCell c1; CredibilistCell c2; TbmOccConsistentCell c3;
  M ref{{0, 0, 0, 1}};
  double trust = rng.chance(0.5) ? std::pow(10, -rng.uni(0.3, 3)) : 1;
  for (int i = 0, n = rng.range(1, 40); i < n; ++i) {
    auto o = tame_obs(rng); o.quality *= trust;
    if (rng.chance(0.2)) { o.occupancy.prob_occ = rng.chance(0.5) ? 0.001 : 0.999; }
    c1 += o; c2 += o; c3 += o;
    ref = comb(ref, of(AOO_to_TBM(o)), true);
    LD w = ref.m[1] + ref.m[2] + ref.m[3];
    if (w < 1e-9) { break; }
    for (auto &x : ref.m) { x /= w; }
    ref.m[0] = 0;
    for (auto *b : {&c1.belief(), &c2.belief(), &c3.belief()}) {
      valid(*b, "cell");
      VF_CHECK(b->conflict() == 0, "cell-conflict", "after " << i + 1 << " observations " << str(of(*b)));
      VF_CHECK(same(of(*b), ref, 1e-7), "cell-history", "after " << i + 1 << " observations " << str(of(*b)) << " expected " << str(ref));
    }
    count("cell_updates", 3);
  }
  eval(); distinct(Hash().add((double)ref.m[1]).add((double)ref.m[2]));
}
VF_MAIN
