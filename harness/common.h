// Shared runtime-monitoring scaffolding: deterministic generators, case
// families, counters, distinct-state hashing and violation reporting.
#ifndef VF_COMMON_H
#define VF_COMMON_H
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <tuple>
#include <typeinfo>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vf {

inline uint64_t mix64(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s{mix64(seed)} {}
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix64(s); }
  // [0, n)
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  // [lo, hi]
  long range(long lo, long hi) {
    return lo + (long)below((uint64_t)(hi - lo + 1));
  }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double lo, double hi) { return lo + (hi - lo) * unit(); }
  bool chance(double p) { return unit() < p; }
  double gauss() {
    double u = 1.0 - unit(), v = unit();
    return std::sqrt(-2 * std::log(u)) * std::cos(2 * M_PI * v);
  }
  template <typename T> const T &pick(const std::vector<T> &v) {
    return v[below(v.size())];
  }
  double pickd(std::initializer_list<double> v) {
    return *(v.begin() + below(v.size()));
  }
  template <typename T> void shuffle(std::vector<T> &v) {
    for (size_t i = v.size(); 1 < i; --i) { std::swap(v[i - 1], v[below(i)]); }
  }
};

struct Hash {
  uint64_t h = 1469598103934665603ull;
  Hash &add(uint64_t v) { h = mix64(h ^ v); return *this; }
  Hash &add(double v) {
    uint64_t u; std::memcpy(&u, &v, 8); return add(u);
  }
  Hash &add(int v) { return add((uint64_t)(int64_t)v); }
  Hash &add(unsigned v) { return add((uint64_t)v); }
  Hash &add(bool v) { return add((uint64_t)v); }
};

struct CaseStop {};

struct State {
  uint64_t seed = 1;
  int shard = 0, nshards = 1;
  double scale = 1.0;
  bool thorough = false;
  std::string family;
  uint64_t idx = 0;
  FILE *out = nullptr;
  volatile uint64_t *cur = nullptr;
  uint64_t evals = 0;
  std::map<std::string, uint64_t> counters;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  std::map<std::string, uint64_t> viol_seen;
  std::map<std::string, uint64_t> required;
};
inline State &st() { static State s; return s; }

inline std::string jesc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || 126 < c) {
      char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b;
    } else { r += c; }
  }
  return r;
}

inline void count(const std::string &name, uint64_t n = 1) {
  st().counters[name] += n;
}
inline void distinct(uint64_t h) {
  if (st().distinct.size() < 400000) { st().distinct.insert(h); }
}
inline void distinct(const Hash &h) { distinct(h.h); }
inline void sample(const std::string &s) {
  if (st().samples.size() < 2) {
    st().samples.push_back(st().family + "#" + std::to_string(st().idx) + ": "
                           + s.substr(0, 600));
  }
}
inline void eval(uint64_t n = 1) { st().evals += n; }

inline void report(const std::string &key, const std::string &detail) {
  auto &n = st().viol_seen[key];
  if (++n <= 3) {
    fprintf(st().out,
            "{\"violation\":{\"key\":\"%s\",\"family\":\"%s\",\"case\":%llu,"
            "\"detail\":\"%s\"}}\n", jesc(key).c_str(),
            jesc(st().family).c_str(), (unsigned long long)st().idx,
            jesc(detail.substr(0, 3000)).c_str());
    fflush(st().out);
  }
}
[[noreturn]] inline void fail(const std::string &key,
                              const std::string &detail) {
  report(key, detail);
  throw CaseStop{};
}

#define VF_CHECK(cond, key, msg)                                        \
  do { if (!(cond)) {                                                   \
    std::ostringstream vf_os; vf_os << std::setprecision(17) << msg;    \
    vf::fail(key, vf_os.str()); } } while (0)

inline bool near(double a, double b, double eps = 1e-9) {
  if (a == b) { return true; }
  if (std::isnan(a) && std::isnan(b)) { return true; }
  return std::abs(a - b) <= eps * std::max({1.0, std::abs(a), std::abs(b)});
}

struct Family {
  std::string name;
  uint64_t quick, thorough;
  std::function<void(Rng &)> fn;
};
inline std::vector<Family> &families() {
  static std::vector<Family> f; return f;
}
struct Reg {
  Reg(const char *n, uint64_t q, uint64_t t, std::function<void(Rng &)> fn) {
    families().push_back({n, q, t, fn});
  }
};
#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
// FAMILY(name, quick cases, thorough cases) { body using rng }
#define FAMILY(name, q, t)                                              \
  static void vf_fam_##name(vf::Rng &rng);                              \
  static vf::Reg VF_CAT(vf_reg_, name){#name, q, t, vf_fam_##name};     \
  static void vf_fam_##name(vf::Rng &rng)
// a counter that must reach n (summed over all shards) in a full run
#define REQUIRE_EVENTS(name, n)                                         \
  static bool VF_CAT(vf_req_, __LINE__) =                               \
    (vf::st().required[name] = (n), true);

// silence code under test that prints to stdout/stderr streams
struct Mute {
  std::ostringstream sink;
  std::streambuf *co;
  Mute() : co{std::cout.rdbuf(sink.rdbuf())} {}
  ~Mute() { std::cout.rdbuf(co); }
};

inline uint64_t case_seed(const Family &f, uint64_t idx) {
  uint64_t h = st().seed * 0x9E3779B97F4A7C15ull;
  for (char c : f.name) { h = mix64(h ^ (unsigned char)c); }
  return mix64(h ^ mix64(idx));
}

inline void run_case(const Family &f, uint64_t idx, uint64_t fam_no) {
  st().family = f.name; st().idx = idx;
  if (st().cur) {
    st().cur[0] = fam_no; st().cur[1] = idx; st().cur[2] = st().cur[2] + 1;
  }
  Rng rng{case_seed(f, idx)};
  try {
    f.fn(rng);
  } catch (const CaseStop &) {
  } catch (const std::exception &e) {
    report(std::string("exception:") + f.name,
           std::string(typeid(e).name()) + ": " + e.what());
  }
}

inline int main_(int argc, char **argv) {
  std::string out, curf, only;
  uint64_t res_fam = 0, res_idx = 0; bool resume = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nxt = [&]() { return std::string(argv[++i]); };
    if (a == "--seed") { st().seed = std::stoull(nxt()); }
    else if (a == "--shard") { st().shard = std::stoi(nxt()); }
    else if (a == "--nshards") { st().nshards = std::stoi(nxt()); }
    else if (a == "--scale") { st().scale = std::stod(nxt()); }
    else if (a == "--thorough") { st().thorough = true; }
    else if (a == "--out") { out = nxt(); }
    else if (a == "--cur") { curf = nxt(); }
    else if (a == "--only") { only = nxt(); }
    else if (a == "--resume") { resume = true; res_fam = std::stoull(nxt());
                                res_idx = std::stoull(nxt()); }
    else if (a == "--list") {
      for (auto &f : families()) {
        printf("%s %llu %llu\n", f.name.c_str(), (unsigned long long)f.quick,
               (unsigned long long)f.thorough);
      }
      return 0;
    }
  }
  st().out = out.empty() ? stdout : fopen(out.c_str(), "a");
  if (!st().out) { perror("out"); return 3; }
  if (!curf.empty()) {
    int fd = open(curf.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, 64)) { perror("cur"); return 3; }
    st().cur = (volatile uint64_t *)mmap(nullptr, 64, PROT_READ | PROT_WRITE,
                                         MAP_SHARED, fd, 0);
  }
  std::string only_f; uint64_t only_i = 0;
  if (!only.empty()) {
    auto p = only.find(':');
    only_f = only.substr(0, p); only_i = std::stoull(only.substr(p + 1));
  }
  for (uint64_t fi = 0; fi < families().size(); ++fi) {
    auto &f = families()[fi];
    if (!only.empty()) {
      if (f.name == only_f) { run_case(f, only_i, fi); }
      continue;
    }
    uint64_t n = (uint64_t)std::ceil(
      (st().thorough ? f.thorough : f.quick) * st().scale);
    for (uint64_t i = st().shard; i < n; i += st().nshards) {
      if (resume && (fi < res_fam || (fi == res_fam && i <= res_idx))) {
        continue;
      }
      run_case(f, i, fi);
    }
  }
  auto o = st().out;
  fprintf(o, "{\"done\":{\"evals\":%llu,\"counters\":{",
          (unsigned long long)st().evals);
  bool first = true;
  for (auto &c : st().counters) {
    fprintf(o, "%s\"%s\":%llu", first ? "" : ",", jesc(c.first).c_str(),
            (unsigned long long)c.second);
    first = false;
  }
  fprintf(o, "},\"required\":{"); first = true;
  for (auto &c : st().required) {
    fprintf(o, "%s\"%s\":%llu", first ? "" : ",", jesc(c.first).c_str(),
            (unsigned long long)c.second);
    first = false;
  }
  fprintf(o, "},\"samples\":["); first = true;
  for (auto &s : st().samples) {
    fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false;
  }
  fprintf(o, "]}}\n");
  fflush(o);
  if (!out.empty()) {
    std::ofstream d{out + ".dist", std::ios::binary | std::ios::app};
    for (auto h : st().distinct) { d.write((const char *)&h, 8); }
  }
  return 0;
}

} // namespace vf

#define VF_MAIN int main(int argc, char **argv) { return vf::main_(argc, argv); }
#endif
