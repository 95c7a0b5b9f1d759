// C17: particle filtering keeps a normalised, fairly resampled population.
#include "common.h"
#include "core/particle_filter.h"
using namespace vf;
REQUIRE_EVENTS("normalizations", 20000)
REQUIRE_EVENTS("degenerate_weights", 2000)
REQUIRE_EVENTS("resampled", 2000)
REQUIRE_EVENTS("not_resampled", 1500)
REQUIRE_EVENTS("copies", 5000)
REQUIRE_EVENTS("large_populations", 60)
REQUIRE_EVENTS("statistical_draws", 20000)

namespace {
int g_live = 0, g_made = 0;
struct P : Particle {
  long payload; std::shared_ptr<int> own; int sampled = 0;
  P() : payload{-1} { ++g_live; ++g_made; }
  P(const P &o) = delete;
  P &operator=(const P &) = default;
  ~P() { --g_live; }
  void sample() override { ++sampled; }
};
struct Factory : ParticleFactory<P> { std::shared_ptr<P> create_particle() override { return std::make_shared<P>(); } };

std::vector<double> weights(Rng &rng, int n, int &type) {
  std::vector<double> w(n);
  type = rng.below(8);
  int hot = rng.below(n);
  for (int i = 0; i < n; ++i) {
    switch (type) {
    case 0: w[i] = rng.unit(); break;
    case 1: w[i] = 0; break;
    case 2: w[i] = i == hot ? 1 : 0; break;
    case 3: w[i] = i == hot ? 1 : rng.uni(0, 0.2); break;
    case 4: w[i] = std::pow(10, rng.uni(-300, 0)); break;
    case 5: w[i] = rng.chance(0.5) ? 0 : rng.unit(); break;
    case 6: w[i] = std::pow(10, rng.uni(-305, -290)); break;
    default: w[i] = 1.0 / n; break;
    }
  }
  return w;
}
void check_weights(ParticleFilter<P> &pf, size_t n, const std::string &what) {
  double sum = 0, mx = -1;
  VF_CHECK(pf.particles().size() == n, "size", what << ": " << pf.particles().size() << " particles, want " << n);
  for (auto &p : pf.particles()) {
    VF_CHECK(p && std::isfinite(p->weight()) && 0 <= p->weight() && p->weight() <= 1 + 1e-9, "weight", what << ": " << p->weight());
    sum += p->weight(); mx = std::max(mx, p->weight());
  }
  VF_CHECK(near(sum, 1, 1e-9), "sum", what << ": weights sum to " << sum);
  const auto &cpf = pf;
  VF_CHECK(cpf.heaviest_particle().weight() == mx && &cpf.heaviest_particle() == &pf.heaviest_particle(), "heaviest",
           what << ": heaviest " << cpf.heaviest_particle().weight() << ", greatest " << mx);
}
} // namespace

FAMILY(history, 10000, 40000) {
  int n = rng.chance(0.1) ? 1 : rng.chance(0.02) ? rng.range(257, 400) : rng.range(2, 40);
  if (256 < n) { count("large_populations"); }
  {
    ParticleFilter<P> pf{std::make_shared<Factory>(), (unsigned)n};
    check_weights(pf, n, "fresh");
    long next = 0;
    for (auto &p : pf.particles()) {
      VF_CHECK(near(p->weight(), 1.0 / n), "fresh-weight", p->weight());
      p->payload = next++; p->own = std::make_shared<int>(0);
    }
    for (int st = 0; st < 12; ++st) {
      int type;
      auto w = weights(rng, n, type);
      bool mult = rng.chance(0.3);
      std::vector<double> raw;
      for (int i = 0; i < n; ++i) {
        auto &p = pf.particles()[i];
        p->payload = next++; // each one is recognisable
        p->set_weight(mult ? p->weight() * w[i] : w[i]);
        raw.push_back(p->weight());
      }
      double tot = 0; for (double v : raw) { tot += v; }
      if (0 < tot && tot < 1e-307) { // nothing is promised about totals an inverse of which is not a number
        tot = 0; mult = false;
        for (int i = 0; i < n; ++i) { raw[i] = w[i]; pf.particles()[i]->set_weight(w[i]); tot += w[i]; }
      }
      std::ostringstream os; os << "step " << st << " n " << n << " weights type " << type << (mult ? " (factor)" : "");
      auto what = os.str();
      pf.normalize_weights();
      count("normalizations"); eval();
      if (type == 1 || type == 2 || tot == 0) { count("degenerate_weights"); }
      check_weights(pf, n, what + " normalized");
      double sq = 0;
      for (int i = 0; i < n; ++i) {
        double v = pf.particles()[i]->weight();
        VF_CHECK(pf.particles()[i]->payload == next - n + i, "order", what);
        if (0 < tot) { VF_CHECK(std::abs(v - raw[i] / tot) <= 1e-9, "ratio", what << ": " << v << " want " << raw[i] / tot); }
        else { VF_CHECK(near(v, 1.0 / n), "even", what << ": " << v); }
        if (raw[i] == 0 && 0 < tot) { VF_CHECK(v == 0, "zero", what << ": " << v); }
        sq += v * v;
      }
      double neff = 1 / sq;
      auto before = pf.particles();
      std::map<long, double> wt; std::map<long, std::shared_ptr<int>> owns;
      for (auto &p : before) { wt[p->payload] = p->weight(); owns[p->payload] = p->own; }
      bool r = pf.try_resample();
      if (!near(neff * 2, n, 1e-9)) {
        VF_CHECK(r == (neff * 2 < n), "when", what << ": N_eff " << neff << (r ? " resampled" : " not resampled"));
      }
      check_weights(pf, n, what + (r ? " resampled" : " kept"));
      if (!r) {
        count("not_resampled");
        for (int i = 0; i < n; ++i) { VF_CHECK(pf.particles()[i] == before[i] && wt[before[i]->payload] == before[i]->weight(), "kept", what); }
        continue;
      }
      count("resampled");
      std::set<P *> ptrs; std::map<long, int> cnt; std::map<long, double> first;
      for (auto &p : pf.particles()) {
        VF_CHECK(ptrs.insert(p.get()).second, "shared-particle", what << ": one object in two places");
        VF_CHECK(wt.count(p->payload), "unknown-particle", what << ": payload " << p->payload);
        VF_CHECK(0 < wt[p->payload], "dead-survivor", what << ": a particle of zero weight was drawn");
        VF_CHECK(p->own == owns[p->payload], "content", what);
        if (cnt[p->payload]++) {
          count("copies");
          VF_CHECK(near(first[p->payload], p->weight(), 1e-9), "copy-weight", what << ": copies of one particle weigh "
                   << first[p->payload] << " and " << p->weight());
        } else { first[p->payload] = p->weight(); }
      }
      // copies change on their own
      for (auto &p : pf.particles()) { double old = p->weight(); p->set_weight(old / 2); p->set_weight(old); }
      for (size_t i = 0; i < pf.particles().size(); ++i) { pf.particles()[i]->payload = next + i; }
      for (size_t i = 0; i < pf.particles().size(); ++i) { VF_CHECK(pf.particles()[i]->payload == next + (long)i, "aliased", what); }
      next += n;
      distinct(Hash().add(n).add(neff).add((unsigned)cnt.size()));
    }
    VF_CHECK(g_live >= n, "live", g_live);
  }
  VF_CHECK(g_live == 0, "leak", g_live << " particles outlive the filter");
}

// the share of each particle, over many draws
FAMILY(fairness, 48, 600) {
  int n = rng.range(3, 12), K = 2000;
  std::vector<double> w(n);
  double tot, sq;
  do {
    tot = 0; sq = 0;
    int hot = rng.below(n);
    for (int i = 0; i < n; ++i) { w[i] = rng.chance(0.2) ? 0 : i == hot ? rng.uni(3, 12) : rng.unit(); tot += w[i]; }
    for (auto &v : w) { v = v / tot; sq += v * v; }
  } while (!(2 / sq < n * 0.99));
  std::vector<std::vector<int>> slot(n, std::vector<int>(n, 0));
  for (int k = 0; k < K; ++k) {
    ParticleFilter<P> pf{std::make_shared<Factory>(), (unsigned)n};
    for (int i = 0; i < n; ++i) { pf.particles()[i]->payload = i; pf.particles()[i]->set_weight(w[i]); }
    VF_CHECK(pf.try_resample(), "fair-when", "N_eff " << 1 / sq << " of " << n);
    for (int i = 0; i < n; ++i) { ++slot[i][pf.particles()[i]->payload]; }
    count("statistical_draws", n); eval();
  }
  std::ostringstream os; os << std::setprecision(4) << "weights";
  for (double v : w) { os << " " << v; }
  for (int i = 0; i < n; ++i) {
    long all = 0;
    for (int s = 0; s < n; ++s) { all += slot[s][i]; }
    double e = (double)K * n * w[i];
    VF_CHECK(std::abs(all - e) <= 8 * std::sqrt(e * (1 - w[i])) + 16, "share",
             os.str() << ": particle " << i << " taken " << all << " of " << K * n << " times");
  }
  distinct(Hash().add(n).add(w[0]).add(w[1]));
}
VF_MAIN
