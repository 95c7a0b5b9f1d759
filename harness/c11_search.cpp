// C11-C13: pose search. VF_PART selects the property decided by this build.
#include "scene_common.h"
#include "core/scan_matchers/monte_carlo_scan_matcher.h"
#include "core/scan_matchers/hill_climbing_scan_matcher.h"
#include "core/scan_matchers/brute_force_scan_matcher.h"
#include "core/scan_matchers/hcsm_fixed.h"
using namespace vf;

namespace {
struct Setup {
  std::unique_ptr<GridMap> map;
  Scene scene;
  int spw, kind; unsigned rate; double max_r, m;
  std::shared_ptr<LogSPE> spe() const { return make(); }
  std::shared_ptr<LogSPE> make() const {
    return std::make_shared<LogSPE>(std::make_shared<ObstacleBasedOccupancyObservationPE>(std::make_shared<DiscrepancyOIE>()),
                                    make_spw(spw), rate, max_r);
  }
};
Setup setup(Rng &rng) {
  Setup s;
  s.m = rng.pickd({0.1, 0.2, 0.5});
  double size = s.m * rng.uni(8, 16);
  s.scene = Scene::room(rng, size);
  s.kind = rng.below(4);
  int half = (int)std::ceil(size / s.m * 1.6) + 2;
  if (s.kind >= 2) { half = rng.range(1, 6); }
  s.map = make_map(s.kind, make_cell(1 + rng.below(3)), {2 * half, 2 * half, s.m});
  if (!rng.chance(0.08)) { s.scene.draw(rng, *s.map, rng.chance(0.6)); }
  s.spw = rng.below(3); s.rate = rng.chance(0.6) ? 0 : rng.range(1, 4);
  s.max_r = rng.chance(0.7) ? -1 : size * rng.uni(0.3, 1);
  return s;
}
struct Job { RobotPose init; TransformedLaserScan scan; };
Job job(Rng &rng, const Setup &s) {
  Job j;
  RobotPose p{rng.uni(-0.25, 0.25) * s.scene.size, rng.uni(-0.25, 0.25) * s.scene.size, rng.uni(-4, 4)};
  bool dense = rng.chance(0.01);
  int n = dense ? rng.range(257, 500) : rng.chance(0.1) ? rng.range(0, 3) : rng.range(4, 24);
  if (dense) { count("dense_scans"); }
  if (rng.chance(0.05)) { p.theta = 0; }
  j.scan.scan = s.scene.scan(p, n, s.scene.size * rng.pickd({0.2, 1, 1, 2, 2, 2}), rng.pickd({2 * M_PI, 4, 1.5}));
  // jitter keeps consecutive points off degenerate directions
  for (auto &sp : j.scan.scan.points()) { sp = ScanPoint2D{sp.range() + rng.uni(0, 1e-3) * s.m, sp.angle(), sp.is_occupied()}; }
  j.scan.quality = 1;
  double k = rng.pickd({0, 0.3, 1, 3});
  j.init = RobotPose{p.x + rng.gauss() * s.m * k, p.y + rng.gauss() * s.m * k, p.theta + rng.gauss() * 0.05 * k};
  return j;
}
// scores recomputed by an estimator the matcher never sees
struct Oracle {
  std::shared_ptr<LogSPE> spe; LaserScan2D scan; const GridMap &map;
  Oracle(const Setup &s, const Job &j) : spe{s.make()}, scan{spe->filter_scan(j.scan.scan, j.init, *s.map)}, map{*s.map} {}
  double operator()(const RobotPose &p) const {
    return spe->estimate_scan_probability(scan, p, map, ScanProbabilityEstimator::SPEParams{});
  }
};
bool ge(double a, double b) { return b <= a + 1e-9 || std::isnan(b); }

struct Result { double score; RobotPoseDelta d; std::vector<Ev> ev; std::vector<Eval> evals; };
Result run(GridScanMatcher &sm, const std::shared_ptr<LogSPE> &spe, const std::shared_ptr<RecObs> &obs, const Setup &s, const Job &j) {
  MuteLog mute;
  obs->ev.clear(); spe->log.clear();
  Result r; r.d = RobotPoseDelta{77, 77, 77};
  r.score = sm.process_scan(j.scan, j.init, *s.map, r.d);
  r.ev = obs->ev; r.evals = spe->log;
  return r;
}
RobotPose result_pose(const Job &j, const Result &r) { return j.init + r.d; }
} // namespace

#if VF_PART == 11
REQUIRE_EVENTS("matchings", 2000)
REQUIRE_EVENTS("scores_reevaluated", 50000)
REQUIRE_EVENTS("improvements", 2000)
REQUIRE_EVENTS("unknown_matchings", 20)
REQUIRE_EVENTS("same_place_other_scan", 300)
REQUIRE_EVENTS("dense_scans", 40)

namespace {
const char *kSM[] = {"MC", "HC", "HC-framed", "BF", "HC_FIXED"};
std::shared_ptr<GridScanMatcher> make_sm(Rng &rng, int k, std::shared_ptr<ScanProbabilityEstimator> spe, double m) {
  switch (k) {
  case 0: return std::make_shared<MonteCarloScanMatcher>(spe, rng.next(), m * rng.uni(0.1, 3), rng.uni(0.01, 0.2), rng.range(1, 30), rng.chance(0.01) ? rng.range(257, 400) : rng.range(1, 120));
  case 1: case 2: return std::make_shared<HillClimbingScanMatcher>(spe, rng.chance(0.03) ? rng.range(7, 40) : rng.range(1, 6), m * rng.uni(0.3, 2), rng.uni(0.01, 0.2), k == 2);
  case 3: {
    double sx = m * rng.uni(0.3, 1), nx = rng.range(0, 3), ny = rng.range(0, 3), nt = rng.range(0, 2), st = rng.uni(0.01, 0.1);
    return std::make_shared<BruteForceScanMatcher>(spe, -sx * nx, sx * nx, sx, -sx * ny, sx * ny, sx, -st * nt, st * nt, st);
  }
  default: return std::make_shared<HillClimbingSMFixed>(spe, rng.range(1, 8));
  }
}
} // namespace

FAMILY(search, 10000, 60000) {
  auto s = setup(rng);
  int k = rng.below(5);
  auto spe = s.make();
  auto sm = make_sm(rng, k, spe, s.m);
  auto obs = std::make_shared<RecObs>(), obs2 = std::make_shared<RecObs>(), gone = std::make_shared<RecObs>(), expired = std::make_shared<RecObs>();
  sm->subscribe(expired); sm->subscribe(obs); sm->subscribe(gone); sm->subscribe(obs2);
  expired.reset(); sm->unsubscribe(gone);
  Job last;
  for (int rep = 0, reps = rng.range(1, 3); rep < reps; ++rep) {
    auto j = job(rng, s);
    if (rep && rng.chance(0.3)) { // another scan of as many points from the same place
      Job other;
      for (int t = 0; t < 8; ++t) { other = job(rng, s); if (other.scan.scan.points().size() == last.scan.scan.points().size()) { break; } }
      auto &op = other.scan.scan.points(); auto &lp = last.scan.scan.points();
      while (op.size() < lp.size()) { op.push_back(ScanPoint2D{s.scene.size * rng.uni(.1, .6), rng.uni(-3, 3), true}); }
      op.resize(lp.size(), ScanPoint2D{0, 0, true});
      other.init = last.init; j = other; count("same_place_other_scan");
    }
    last = j;
    if (rng.chance(0.2)) { sm->reset_state(); }
    auto raw0 = snap(j.scan.scan); auto dig = map_digest(*s.map); auto init0 = j.init;
    obs2->ev.clear();
    auto r = run(*sm, spe, obs, s, j);
    Oracle o{s, j};
    MuteLog mute;
    std::string what = std::string(kSM[k]) + " " + kMapKinds[s.kind] + " spw " + std::to_string(s.spw) + " init " + ps(j.init) + " points "
      + std::to_string(raw0.size());
    count("matchings");
    VF_CHECK(eq(snap(j.scan.scan), raw0), "scan-modified", what);
    VF_CHECK(dig == map_digest(*s.map), "map-modified", what);
    VF_CHECK(same_pose(init0, j.init, 0), "init-modified", what);
    double v0 = o(j.init); auto rp = result_pose(j, r); double vr = o(rp);
    VF_CHECK(std::isfinite(rp.x) && std::isfinite(rp.y) && std::isfinite(rp.theta), "result-not-finite", what << " -> " << ps(rp));
    VF_CHECK(near(r.score, vr, 1e-9), "score-not-true", what << ": returned " << r.score << " but " << ps(rp) << " scores " << vr);
    VF_CHECK(std::isnan(v0) ? std::isnan(vr) : ge(vr, v0), "worse-than-initial", what << ": " << vr << " < initial " << v0);
    if (std::isnan(v0)) { count("unknown_matchings"); VF_CHECK(!r.d, "moved-without-knowledge", what << " delta " << r.d); }
    VF_CHECK(!r.evals.empty(), "nothing-evaluated", what);
    for (auto &e : r.evals) {
      double v = o(e.pose);
      VF_CHECK(near(v, e.v, 1e-9), "score-of-test", what << " pose " << ps(e.pose) << " " << e.v << " true " << v);
      count("scores_reevaluated");
      if (k != 4) { VF_CHECK(std::isnan(v0) || ge(vr, v), "better-pose-dropped", what << ": returned " << vr << " but tested " << ps(e.pose) << " with " << v); }
    }
    if (k != 4) { // observer protocol
      auto &ev = r.ev;
      VF_CHECK(3 <= ev.size() && ev.front().kind == 's' && ev.back().kind == 'e', "trace-shape", what << " " << ev.size() << " events");
      VF_CHECK(same_pose(ev.front().pose, j.init, 0), "start-pose", what);
      bool have = false; double best = 0; RobotPose bp, last_t; double last_v = 0; bool pending = false; size_t tests = 0;
      for (size_t i = 1; i + 1 < ev.size(); ++i) {
        auto &e = ev[i];
        if (e.kind == 't') {
          ++tests; last_t = e.pose; last_v = e.v; pending = true;
          if (tests == 1) { VF_CHECK(same_pose(e.pose, j.init, 0), "first-test", what << " first tested " << ps(e.pose)); }
        } else if (e.kind == 'u') {
          VF_CHECK(pending && same_pose(e.pose, last_t, 0) && near(e.v, last_v, 0), "update-without-test", what);
          VF_CHECK(!have || best < e.v, "update-not-better", what << ": " << best << " then " << e.v);
          if (have) { count("improvements"); }
          have = true; best = e.v; bp = e.pose; pending = false;
        } else { vf::fail("trace-shape", what + ": start/end inside a matching"); }
      }
      // every test that beats the best so far is announced
      double run_best = 0; bool any = false;
      for (size_t i = 1; i + 1 < ev.size(); ++i) {
        if (ev[i].kind != 't') { continue; }
        bool upd = i + 1 < ev.size() && ev[i + 1].kind == 'u';
        bool better = !any || run_best < ev[i].v;
        VF_CHECK(upd == better, better ? "improvement-not-told" : "update-not-better", what << " test " << i << " v " << ev[i].v << " best " << run_best);
        if (better) { run_best = ev[i].v; any = true; }
      }
      VF_CHECK(tests == r.evals.size(), "tests-told", what << ": " << tests << " told, " << r.evals.size() << " evaluated");
      size_t t = 0;
      for (auto &e : ev) {
        if (e.kind != 't') { continue; }
        VF_CHECK(same_pose(e.pose, r.evals[t].pose, 0) && near(e.v, r.evals[t].v, 0), "told-other-score", what << " test " << t);
        ++t;
      }
      VF_CHECK(have && same_pose(bp, rp, 1e-9) && near(best, r.score, 0), "result-not-last-improvement", what << " " << ps(bp) << " vs " << ps(rp));
      auto &e = ev.back();
      VF_CHECK(near(e.pose.x, r.d.x) && near(e.pose.y, r.d.y) && near(e.pose.theta, r.d.theta) && near(e.v, r.score, 0), "end-result", what);
      VF_CHECK(obs2->ev.size() == ev.size(), "second-observer", what << ": " << obs2->ev.size() << " vs " << ev.size());
      VF_CHECK(gone->ev.empty(), "unsubscribed-told", what);
    }
    distinct(Hash().add(rp.x).add(rp.theta).add(r.score).add(k));
    eval();
    if (rng.chance(0.002)) { sample(what + " -> " + ps(rp) + " score " + std::to_string(r.score)); }
  }
}
#endif

#if VF_PART == 12
#include "core/scan_matchers/pose_enumerators.h"
REQUIRE_EVENTS("polar_poses", 20000)
FAMILY(polar, 1500, 10000) { // directions and distances around a pose
  double sd = rng.pickd({0.25, 0.5, 0.125}), sr = rng.pickd({0.25, 0.5, 0.0625});
  int nd = rng.below(9), nr = rng.below(9);
  double d0 = rng.range(-20, 20) * sd, r0 = rng.range(-8, 8) * sr;
  PolarCoordBruteForcePoseEnumerator e{d0, d0 + nd * sd, sd, r0, r0 + nr * sr, sr};
  for (int round = 0; round < 2; ++round) {
    RobotPose base{rng.uni(-9, 9), rng.uni(-9, 9), rng.uni(-3, 3)}, cur = base;
    std::vector<bool> seen((nd + 1) * (nr + 1), false);
    for (int i = 0; i < (nd + 1) * (nr + 1); ++i) {
      std::ostringstream w; w << "directions " << d0 << ".." << d0 + nd * sd << " by " << sd << " distances " << r0 << ".." << r0 + nr * sr << " by " << sr << " #" << i;
      auto what = w.str();
      VF_CHECK(e.has_next(), "polar-too-few", what);
      auto p = e.next(cur);
      VF_CHECK(p.theta == base.theta, "polar-heading", what << ": " << ps(p));
      int hit = -1; // several lattice values may be the same pose
      for (int d = 0; d <= nd && hit < 0; ++d) for (int r = 0; r <= nr; ++r) {
        double a = d0 + d * sd, l = r0 + r * sr;
        if (!seen[d * (nr + 1) + r] && std::abs(p.x - base.x - l * std::cos(a)) < 1e-9 && std::abs(p.y - base.y - l * std::sin(a)) < 1e-9) { hit = d * (nr + 1) + r; break; }
      }
      VF_CHECK(0 <= hit, "polar-pose", what << ": " << ps(p) << " around " << ps(base) << " is none of the lattice or was given before");
      seen[hit] = true;
      bool good = rng.chance(0.3); if (good) { cur = p; } // the base stays what it was
      e.feedback(good); count("polar_poses"); eval();
    }
    VF_CHECK(!e.has_next(), "polar-too-many", "nd " << nd << " nr " << nr);
    distinct(Hash().add(d0).add(r0).add((uint64_t)nd).add((uint64_t)nr).add(base.x));
    e.reset();
  }
}
REQUIRE_EVENTS("matchings", 1500)
REQUIRE_EVENTS("repeated_matchings", 500)
REQUIRE_EVENTS("lattice_points", 50000)
REQUIRE_EVENTS("exact_ends", 1000)

FAMILY(lattice, 12000, 30000) {
  auto s = setup(rng);
  struct Axis { double from, to, step; int n; bool strict, exact; };
  auto axis = [&](double st, int maxn) {
    Axis a; a.n = rng.chance(0.2) ? 0 : rng.range(1, maxn);
    a.step = st * rng.pickd({1, 0.5, rng.uni(0.3, 1.5)});
    a.exact = rng.chance(0.3); // sums of steps that do not round
    if (a.exact) { a.step = std::ldexp(1.0, (int)std::floor(std::log2(a.step))); }
    int before = rng.chance(0.6) ? a.n / 2 : rng.range(0, a.n);
    a.from = -a.step * before;
    // the window may end exactly on a lattice value or between two
    a.strict = a.n && rng.chance(0.5);
    a.to = a.from + a.n * a.step - (a.strict ? a.step * rng.uni(0.1, 0.9) : 0);
    return a;
  };
  Axis ax = axis(s.m, 5), ay = axis(s.m, 5), at = axis(0.05, 4);
  auto spe = s.make();
  BruteForceScanMatcher sm{spe, ax.from, ax.to, ax.step, ay.from, ay.to, ay.step, at.from, at.to, at.step};
  auto obs = std::make_shared<RecObs>();
  sm.subscribe(obs);
  std::map<int, std::pair<double, RobotPoseDelta>> first;
  std::vector<Job> jobs{job(rng, s), job(rng, s)};
  for (int rep = 0, reps = rng.range(2, 4); rep < reps; ++rep) {
    int ji = rng.below(2); auto &j = jobs[ji];
    auto r = run(sm, spe, obs, s, j);
    MuteLog mute;
    std::ostringstream w; w << "x " << ax.from << ".." << ax.to << "/" << ax.step << " y " << ay.from << ".." << ay.to << "/" << ay.step
      << " t " << at.from << ".." << at.to << "/" << at.step << " init " << ps(j.init) << " matching #" << rep;
    auto what = w.str();
    count("matchings");
    VF_CHECK(!r.evals.empty() && same_pose(r.evals[0].pose, j.init), "initial-not-tested", what);
    std::map<std::tuple<long, long, long>, int> seen;
    auto idx = [](double v, const Axis &a, long &i) {
      double k = (v - a.from) / a.step; i = std::lround(k);
      // one overshooting value is tolerated: it is at most a step (plus rounding) beyond the window
      return std::abs(k - i) < 1e-5 && 0 <= i && a.from + i * a.step < a.to + a.step * (1 + 1e-5);
    };
    double best = -1;
    Oracle o{s, j};
    for (size_t i = 0; i < r.evals.size(); ++i) {
      auto &p = r.evals[i].pose;
      if (std::isfinite(r.evals[i].v)) { best = std::max(best, r.evals[i].v); }
      if (i == 0) { continue; }
      long ix, iy, it;
      bool ok = idx(p.x - j.init.x, ax, ix) & idx(p.y - j.init.y, ay, iy) & idx(p.theta - j.init.theta, at, it);
      VF_CHECK(ok, "outside-lattice", what << ": tested offset " << p.x - j.init.x << "," << p.y - j.init.y << "," << p.theta - j.init.theta);
      VF_CHECK(++seen[std::make_tuple(ix, iy, it)] == 1, "tested-twice", what << ": " << ix << "," << iy << "," << it);
    }
    // the whole window is covered; rounding may drop only a value that ends exactly at the window's border
    auto last = [](const Axis &a) { return (long)std::floor((a.to - a.from) / a.step - (a.n ? 1e-5 : -1e-5)); };
    auto all = [&](const Axis &a) { return (long)std::floor((a.to - a.from) / a.step + 1e-5); };
    double exhaustive = o(j.init);
    for (long x = 0; x <= all(ax); ++x) for (long y = 0; y <= all(ay); ++y) for (long t = 0; t <= all(at); ++t) {
      bool border = last(ax) < x || last(ay) < y || last(at) < t;
      bool tested = seen.count(std::make_tuple(x, y, t));
      if (!tested && border && last(at) < t && !at.exact) { continue; }
      if (border && at.exact && at.n && last(at) < t) { count("exact_ends"); }
      VF_CHECK(tested, "hole-in-lattice", what << ": never tested offset index " << x << "," << y << "," << t);
      count("lattice_points");
      double v = o({j.init.x + ax.from + x * ax.step, j.init.y + ay.from + y * ay.step, j.init.theta + at.from + t * at.step});
      if (!border && std::isfinite(v)) { exhaustive = std::max(exhaustive, v); }
    }
    if (std::isfinite(exhaustive)) {
      // rounding of a pose may move single points over a cell border
      double slack = 1.0 / std::max<size_t>(1, o.scan.points().size()) + 1e-9;
      bool tie_free = s.spw == 0;
      if (tie_free) { VF_CHECK(exhaustive <= r.score + slack, "missed-maximum", what << ": " << r.score << " but exhaustive search finds " << exhaustive); }
      VF_CHECK(near(r.score, best, 1e-12), "not-best-tested", what << ": " << r.score << " best tested " << best);
    }
    if (first.count(ji)) {
      auto &f = first[ji]; count("repeated_matchings");
      VF_CHECK((f.first == r.score || (std::isnan(f.first) && std::isnan(r.score))) && f.second.x == r.d.x && f.second.y == r.d.y && f.second.theta == r.d.theta,
               "depends-on-history", what << ": " << f.second << " first, now " << r.d);
    } else { first[ji] = {r.score, r.d}; }
    distinct(Hash().add(j.init.x).add(r.score).add(ax.step).add(at.to));
    eval();
  }
}
#endif

#if VF_PART == 13
REQUIRE_EVENTS("mc_matchings", 1500)
REQUIRE_EVENTS("mc_budget_hit", 100)
REQUIRE_EVENTS("mc_failures_hit", 100)
REQUIRE_EVENTS("hc_rounds", 5000)
REQUIRE_EVENTS("hc_framed", 300)

FAMILY(monte_carlo, 8000, 25000) {
  auto s = setup(rng);
  unsigned seed = rng.next(), fails = rng.range(1, 40), total = rng.chance(0.3) ? rng.range(1, 12) : rng.range(10, 250);
  if (rng.chance(0.02)) { fails = rng.range(200, 400); total = rng.range(300, 900); } // beyond 2^8
  double td = s.m * rng.uni(0.1, 3), rd = rng.uni(0.005, 0.2);
  auto spe_a = s.make(), spe_b = s.make();
  MonteCarloScanMatcher a{spe_a, seed, td, rd, fails, total}, b{spe_b, seed, td, rd, fails, total};
  auto oa = std::make_shared<RecObs>(), ob = std::make_shared<RecObs>();
  a.subscribe(oa); b.subscribe(ob);
  int reps = rng.range(1, 4);
  double sum2 = 0; long cnt = 0;
  for (int rep = 0; rep < reps; ++rep) {
    auto j = job(rng, s);
    auto ra = run(a, spe_a, oa, s, j), rb = run(b, spe_b, ob, s, j);
    std::ostringstream w; w << "seed " << seed << " fails " << fails << " total " << total << " init " << ps(j.init) << " #" << rep;
    auto what = w.str();
    count("mc_matchings");
    VF_CHECK(ra.evals.size() == rb.evals.size(), "seed-replay", what << ": " << ra.evals.size() << " vs " << rb.evals.size() << " poses");
    for (size_t i = 0; i < ra.evals.size(); ++i) {
      auto &x = ra.evals[i], &y = rb.evals[i];
      VF_CHECK(same_pose(x.pose, y.pose, 0), "seed-replay", what << " pose " << i << " " << ps(x.pose) << " vs " << ps(y.pose));
    }
    VF_CHECK(ra.d.x == rb.d.x && ra.d.y == rb.d.y && ra.d.theta == rb.d.theta, "seed-replay", what << " result differs");
    // budget automaton
    size_t tested = ra.evals.size() - 1;
    VF_CHECK(tested <= total, "budget-exceeded", what << ": " << tested << " poses tested");
    double best = ra.evals[0].v; unsigned failed = 0; double t_disp = td, r_disp = rd;
    RobotPose bp = ra.evals[0].pose;
    for (size_t i = 1; i < ra.evals.size(); ++i) {
      VF_CHECK(failed < fails, "failures-exceeded", what << ": pose " << i << " tested after " << failed << " rejected ones");
      auto &e = ra.evals[i];
      VF_CHECK(std::abs(e.pose.x - bp.x) < 8 * t_disp && std::abs(e.pose.y - bp.y) < 8 * t_disp && std::abs(e.pose.theta - bp.theta) < 8 * r_disp,
               "too-far-sample", what << ": pose " << i << " " << ps(e.pose) << " from " << ps(bp) << " dispersion " << t_disp << "," << r_disp);
      double zx = (e.pose.x - bp.x) / t_disp, zt = (e.pose.theta - bp.theta) / r_disp;
      sum2 += zx * zx + zt * zt; cnt += 2;
      if (best < e.v) {
        best = e.v; bp = e.pose;
        if (fails / 3 < failed) { failed = 0; t_disp *= 0.5; r_disp *= 0.5; }
      } else { ++failed; }
    }
    bool by_total = tested == total, by_fail = failed == fails;
    VF_CHECK(by_total || by_fail, "stopped-early", what << ": " << tested << " tested, " << failed << " rejected in the current dispersion");
    if (by_total) { count("mc_budget_hit"); }
    if (by_fail) { count("mc_failures_hit"); }
    distinct(Hash().add(ra.score).add(ra.d.x).add((uint64_t)tested));
    eval();
  }
  if (400 <= cnt) {
    double var = sum2 / cnt;
    VF_CHECK(0.6 < var && var < 1.6, "wrong-dispersion", "sample variance over the configured one is " << var << " over " << cnt << " samples");
    count("dispersion_checked");
  }
}

FAMILY(hill_climbing, 8000, 30000) {
  auto s = setup(rng);
  unsigned rounds = rng.range(1, 7); double td = s.m * rng.uni(0.2, 2), rd = rng.uni(0.01, 0.2);
  bool framed = rng.chance(0.5);
  auto spe = s.make();
  HillClimbingScanMatcher sm{spe, rounds, td, rd, double(framed)};
  auto obs = std::make_shared<RecObs>();
  sm.subscribe(obs);
  for (int rep = 0, reps = rng.range(1, 3); rep < reps; ++rep) {
    auto j = job(rng, s);
    double frame = 0;
    if (framed && 2 <= j.scan.scan.points().size()) {
      AngleHistogram h{20}; h.reset(j.scan.scan); frame = h.major_direction(); count("hc_framed");
    }
    auto r = run(sm, spe, obs, s, j);
    std::ostringstream w; w << "rounds " << rounds << " steps " << td << "," << rd << " frame " << frame << " init " << ps(j.init) << " #" << rep;
    auto what = w.str();
    double best = r.evals[0].v; RobotPose bp = r.evals[0].pose;
    double t = td, a = rd; unsigned failed = 0; size_t i = 1;
    while (failed < rounds) {
      RobotPose base = bp; bool any = false;
      // the six neighbours in any order, each once
      std::vector<RobotPose> want;
      for (int d = -1; d <= 1; d += 2) {
        want.push_back({base.x + d * t * std::cos(frame), base.y + d * t * std::sin(frame), base.theta});
        want.push_back({base.x - d * t * std::sin(frame), base.y + d * t * std::cos(frame), base.theta});
        want.push_back({base.x, base.y, base.theta + d * a});
      }
      VF_CHECK(i + 6 <= r.evals.size(), "round-cut-short", what << ": round with steps " << t << "," << a << " has " << r.evals.size() - i << " tests");
      for (int k = 0; k < 6; ++k, ++i) {
        auto &e = r.evals[i]; bool hit = false;
        for (size_t q = 0; q < want.size(); ++q) {
          if (same_pose(want[q], e.pose, 1e-9)) { want.erase(want.begin() + q); hit = true; break; }
        }
        VF_CHECK(hit, "not-a-neighbour", what << ": test " << i << " " << ps(e.pose) << " is not an untested neighbour of " << ps(base)
                 << " at steps " << t << "," << a);
        if (best < e.v) { best = e.v; bp = e.pose; any = true; }
      }
      count("hc_rounds");
      if (!any) { ++failed; t /= 2; a /= 2; }
    }
    // the enumerator may test one more neighbour when the last round ends
    VF_CHECK(r.evals.size() - i <= 1, "continues-after-limit", what << ": " << r.evals.size() - i << " more tests");
    distinct(Hash().add(r.score).add(r.d.x).add(r.d.theta));
    eval();
  }
}
#endif
VF_MAIN
