// C33: every random disturbance has the distribution it is configured with.
#include "scene_common.h"
#include "slams/gmapping/init_gmapping.h"
using namespace vf;
REQUIRE_EVENTS("series_checked", 3000)
REQUIRE_EVENTS("pose_draws", 100000)
REQUIRE_EVENTS("matcher_draws", 50000)
REQUIRE_EVENTS("particle_draws", 50000)

namespace {
using E = std::mt19937; using G = GaussianRV1D<E>; using U = UniformRV1D<E>;
using Ser = std::vector<double>;
// bounds: each fails a right source with probability below 1e-9
void judge(const Ser &s, double mean, double sd, bool uniform, const std::string &key, const std::string &what) {
  size_t n = s.size();
  for (double v : s) { VF_CHECK(std::isfinite(v), key + ":finite", what << ": " << v); }
  if (sd == 0) {
    for (double v : s) { VF_CHECK(std::abs(v - mean) <= 1e-12 * std::max(1., std::abs(mean)), key + ":constant", what << ": " << v << " want " << mean); }
    count("constant_series"); return;
  }
  double m = 0, q = 0, lag = 0;
  for (double v : s) { m += (v - mean) / sd; q += (v - mean) * (v - mean) / sd / sd; }
  for (size_t i = 1; i < n; ++i) { lag += (s[i] - mean) * (s[i - 1] - mean) / sd / sd; }
  double r = 7 / std::sqrt((double)n);
  VF_CHECK(std::abs(m / n) <= r, key + ":mean", what << ": mean of " << n << " draws is off by " << m / n << " deviations");
  VF_CHECK(std::abs(q / n - 1) <= r * std::sqrt(2.), key + ":deviation", what << ": variance of " << n << " draws is " << q / n << " times the configured one");
  VF_CHECK(std::abs(lag / n) <= r, key + ":serial", what << ": consecutive draws correlate by " << lag / n);
  Ser t = s; std::sort(t.begin(), t.end());
  double d = 0, a = mean - sd * std::sqrt(3.), b = mean + sd * std::sqrt(3.);
  for (size_t i = 0; i < n; ++i) {
    double f = uniform ? (t[i] - a) / (b - a) : 0.5 * std::erfc(-(t[i] - mean) / sd / std::sqrt(2.));
    d = std::max({d, std::abs(f - (double)i / n), std::abs(f - (i + 1.) / n)});
  }
  VF_CHECK(d <= 3.4 / std::sqrt((double)n), key + ":shape", what << ": distribution of " << n << " draws differs from the configured one by " << d);
  if (uniform) { VF_CHECK(a - 1e-9 <= t.front() && t.back() <= b + 1e-9, key + ":range", what << ": " << t.front() << ".." << t.back()); }
  count("series_checked"); eval();
}
void apart(const Ser &a, const Ser &b, double ma, double sa, double mb, double sb, const std::string &key, const std::string &what) {
  size_t n = std::min(a.size(), b.size());
  if (sa == 0 || sb == 0 || n < 50) { return; }
  double c = 0;
  for (size_t i = 0; i < n; ++i) { c += (a[i] - ma) / sa * (b[i] - mb) / sb; }
  VF_CHECK(std::abs(c / n) <= 8 / std::sqrt((double)n), key, what << ": they correlate by " << c / n << " over " << n << " draws");
  count("pairs_checked");
}
double sigma(Rng &rng) { return rng.chance(0.15) ? 0 : rng.pickd({1, 0.05, 0.2, 0.001, rng.uni(.01, 3)}); }
double mu(Rng &rng) { return rng.chance(0.4) ? 0 : rng.uni(-2, 2); }
} // namespace

FAMILY(variables, 1000, 20000) { // a pose disturbance: three independent variables, copied and assigned
  struct V { bool uni; double m, s; std::unique_ptr<RandomVariable1D<E>> mk() const {
    if (uni) { return std::make_unique<U>(m - s * std::sqrt(3.), m + s * std::sqrt(3.)); } return std::make_unique<G>(m, s); } } v[3];
  std::ostringstream os;
  for (auto &x : v) { x = V{rng.chance(.4), mu(rng), sigma(rng)}; if (x.s == 0) { x.uni = false; } os << (x.uni ? "uniform " : "normal ") << x.m << "+-" << x.s << " "; }
  auto what = os.str();
  unsigned seed = rng.next();
  auto make = [&] { return RobotPoseDeltaRV<E>{*v[0].mk(), *v[1].mk(), *v[2].mk()}; };
  RobotPoseDeltaRV<E> rv = make();
  E e{seed}; Ser s[3];
  const int n = 2000;
  // however the variable is copied around, copies follow the same distribution
  RobotPoseDeltaRV<E> other{G{5, 5}, G{5, 5}, G{5, 5}};
  int how = rng.below(4);
  for (int i = 0; i < n; ++i) {
    if (how == 1 && i % 7 == 3) { RobotPoseDeltaRV<E> c{rv}; rv = c; }
    if (how == 2 && i % 5 == 3) { other = rv; rv = std::move(other); other = RobotPoseDeltaRV<E>{G{5, 5}, G{5, 5}, G{5, 5}}; }
    if (how == 3 && i % 11 == 5) { rv = make(); }
    auto d = rv.sample(e); s[0].push_back(d.x); s[1].push_back(d.y); s[2].push_back(d.theta); count("pose_draws");
  }
  for (int k = 0; k < 3; ++k) {
    judge(s[k], v[k].m, v[k].s, v[k].uni, std::string("variable:") + "xyt"[k], what + " component " + "xyt"[k]);
    int o = (k + 1) % 3;
    apart(s[k], s[o], v[k].m, v[k].s, v[o].m, v[o].s, "variable:components", what);
  }
  // a copy has no draws in store: it gives what a new variable gives
  auto clone = RobotPoseDeltaRV<E>{rv}; auto fresh = make(); E a{seed + 1}, b{seed + 1};
  for (int i = 0; i < 9; ++i) {
    auto p = clone.sample(a), q = fresh.sample(b);
    VF_CHECK(p.x == q.x && p.y == q.y && p.theta == q.theta, "variable:copy", what << ": draw " << i << " of a copy " << p << " of a new one " << q);
  }
  auto one = v[0].mk(); one->sample(a); auto two = one->clone(); E c{seed}, d{seed}; auto three = v[0].mk();
  for (int i = 0; i < 5; ++i) { double p = two->sample(c), q = three->sample(d); VF_CHECK(p == q, "variable:clone", what << ": " << p << " " << q); }
  distinct(Hash().add(s[0][0]).add(s[1][0]));
}

namespace {
struct ScriptSPE : ScanProbabilityEstimator { // accepts what the script says
  mutable std::vector<RobotPose> log; mutable double v = 0; mutable std::vector<bool> script; mutable bool better = false;
  std::function<bool(size_t)> accept;
  ScriptSPE() : ScanProbabilityEstimator{nullptr} {}
  double estimate_scan_probability(const LaserScan2D &, const RobotPose &p, const GridMap &, const SPEParams &) const override {
    log.push_back(p);
    if (accept && 1 < log.size() && accept(log.size() - 1)) { v += 1e-6; return v; }
    return log.size() == 1 ? v : v - .5;
  }
};
}
FAMILY(matcher, 480, 9000) { // the shifts tested by the Monte-Carlo matcher
  MuteLog mute;
  double td = rng.uni(.02, 3), rd = rng.uni(.01, 1);
  unsigned fails = rng.range(6, 60);
  auto spe = std::make_shared<ScriptSPE>();
  MonteCarloScanMatcher sm{spe, (unsigned)rng.next(), td, rd, fails, 4000};
  UnboundedPlainGridMap map{std::make_shared<MeanProbabilityCell>(), {4, 4, 1}};
  std::ostringstream os; os << "dispersions " << td << "," << rd << " failures " << fails; auto what = os.str();
  Ser s[3];
  for (int rep = 0; rep < 60 && s[0].size() < 1500; ++rep) {
    spe->log.clear(); spe->v = 0;
    unsigned failed = 0; int shrinks = 0; RobotPose base{0, 0, 0};
    double t = td, r = rd;
    std::vector<double> zx, zy, zt;
    spe->accept = [&](size_t i) {
      auto p = spe->log[i];
      s[0].push_back((p.x - base.x) / t); s[1].push_back((p.y - base.y) / t); s[2].push_back((p.theta - base.theta) / r);
      count("matcher_draws");
      bool ok = rng.chance(failed <= fails / 3 ? .1 : .2) && shrinks < 6;
      if (!ok) { ++failed; return false; }
      base = p;
      if (fails / 3 < failed) { failed = 0; t /= 2; r /= 2; ++shrinks; }
      return true;
    };
    TransformedLaserScan ts; ts.quality = 1; ts.scan.points().emplace_back(1, 0, true);
    RobotPoseDelta d;
    sm.process_scan(ts, RobotPose{0, 0, 0}, map, d);
    VF_CHECK(same_pose(RobotPose{} + d, base, 1e-9), "matcher:result", what << ": " << d << " want " << ps(base));
    if (1 < shrinks) { count("shrunk_series"); }
  }
  for (int k = 0; k < 3; ++k) {
    judge(s[k], 0, 1, false, std::string("matcher:") + "xyt"[k], what + " component " + "xyt"[k]);
    apart(s[k], s[(k + 1) % 3], 0, 1, 0, 1, "matcher:components", what);
  }
  distinct(Hash().add(s[0][0]).add(s[1][0]));
}

namespace {
using GMap = GmappingWorld::MapType;
struct SeeSM : GridScanMatcher {
  std::map<const GridMap *, RobotPose> seen;
  SeeSM() : GridScanMatcher{nullptr} {}
  double process_scan(const TransformedLaserScan &, const RobotPose &p, const GridMap &m, RobotPoseDelta &d) override { seen[&m] = p; d = RobotPoseDelta{}; return 1; }
};
struct NoAdder : GridMapScanAdder { using GridMapScanAdder::GridMapScanAdder; void handle_scan_point(GridMap &, bool, double, const Segment2D &) const override {} };
}
FAMILY(particles, 150, 2500) { // the noise of GMapping's particles
  unsigned n = rng.range(2, 8);
  double mxy = mu(rng) * .1, sxy = rng.chance(.1) ? 0 : rng.uni(.01, .5), mth = mu(rng) * .1, sth = rng.chance(.1) ? 0 : rng.uni(.01, .3);
  SingleStateHypothesisLSGWProperties pr{1.0, 1.0, 0, nullptr, nullptr, nullptr};
  pr.grid_map = std::make_shared<GMap>(std::make_shared<GmappingBaseCell>(), GridMapParams{10, 10, 1});
  auto sm = std::make_shared<SeeSM>(); pr.gsm = sm;
  pr.gmsa = std::make_shared<NoAdder>(std::make_shared<ConstOccupancyEstimator>(Occupancy{.95, 1}, Occupancy{.01, 1}), std::make_shared<IdleOMQE>());
  std::unique_ptr<GmappingParticleFilter> f;
  if (rng.chance(.5)) { f = std::make_unique<GmappingParticleFilter>(pr, GMappingParams{mxy, sxy, mth, sth, 0, 0, 0, 0}, n); }
  else { // as configured by properties
    MapPropertiesProvider p; char b[40]; auto set = [&](const char *k, double v) { snprintf(b, sizeof b, "%.17g", v); p.set_property(k, b); };
    set("slam/particles/sample/xy/mean", mxy); set("slam/particles/sample/xy/sigma", sxy); set("slam/particles/sample/theta/mean", mth); set("slam/particles/sample/theta/sigma", sth);
    for (auto k : {"xy/min", "xy/max", "theta/min", "theta/max"}) { p.set_property(std::string("slam/particles/sm_delta_lim/") + k, "0"); }
    f = std::make_unique<GmappingParticleFilter>(pr, init_gmapping_params(p), n);
  }
  std::ostringstream os; os << n << " particles, noise " << mxy << "+-" << sxy << "," << mth << "+-" << sth; auto what = os.str();
  std::map<const GridMap *, RobotPose> before; std::map<const GridMap *, Ser> s[3];
  for (int t = 0; t < 700; ++t) {
    TransformedLaserScan ts; ts.scan.points().emplace_back(2, 0, true); ts.quality = 1; ts.pose_delta = RobotPoseDelta{}; // stands still: a pose changes by noise only
    f->handle_sensor_data(ts);
    VF_CHECK(sm->seen.size() == n, "particles:number", what << ": " << sm->seen.size());
    if (t) for (auto &p : sm->seen) {
      auto &b = before[p.first];
      s[0][p.first].push_back(p.second.x - b.x); s[1][p.first].push_back(p.second.y - b.y); s[2][p.first].push_back(p.second.theta - b.theta);
      count("particle_draws");
    }
    before = sm->seen;
  }
  int masters = 0; const GridMap *prev = nullptr; Ser all[3];
  for (auto &p : s[0]) {
    bool still = true;
    for (int k = 0; k < 3; ++k) for (double v : s[k][p.first]) { still = still && v == 0; }
    if (still) { ++masters; continue; }
    for (int k = 0; k < 3; ++k) {
      double m = k == 2 ? mth : mxy, sd = k == 2 ? sth : sxy;
      // poses accumulate, so a difference holds a rounding error
      for (double &v : s[k][p.first]) { if (sd == 0 && std::abs(v - m) < 1e-10) { v = m; } }
      judge(s[k][p.first], m, sd, false, std::string("particles:") + "xyt"[k], what + " component " + "xyt"[k]);
      int o = (k + 1) % 3;
      apart(s[k][p.first], s[o][p.first], m, sd, o == 2 ? mth : mxy, o == 2 ? sth : sxy, "particles:components", what);
      if (prev) { apart(s[k][p.first], s[k][prev], m, sd, m, sd, "particles:same-noise", what); }
    }
    prev = p.first;
  }
  bool none = mxy == 0 && sxy == 0 && mth == 0 && sth == 0;
  VF_CHECK(masters == 1 || none, "particles:masters", what << ": " << masters << " particles are free of noise");
  distinct(Hash().add(before.begin()->second.x));
}
VF_MAIN
