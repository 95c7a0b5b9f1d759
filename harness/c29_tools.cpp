// C29: the command line tools report what the configured SLAM or matcher computes, and refuse unusable inputs.
#include "common.h"
#define VF_BAG_FILES
#include "stub.h"
#define main sm_runner_main
#include "utils/sm_runner.cpp"
#undef main
#define main p2d_main
#include "utils/pose2D_search_space_evaluator.cpp"
#undef main
#define main bag_runner_main
#include "ros/lslam2D_bag_runner.cpp"
#undef main
#include "scene_common.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vf;
using Scan = sensor_msgs::LaserScan;
REQUIRE_EVENTS("overwritten_results", 30)
REQUIRE_EVENTS("matchings_compared", 150)
REQUIRE_EVENTS("bad_inputs_refused", 150)
REQUIRE_EVENTS("trajectory_lines", 500)
REQUIRE_EVENTS("map_images", 50)
REQUIRE_EVENTS("gmapping_runs", 10)
REQUIRE_EVENTS("runs_compared", 30)
REQUIRE_EVENTS("bad_arguments", 20)
REQUIRE_EVENTS("search_spaces", 2)

namespace {
ros_stub::BagData g_bag;
std::string g_bag_name;
std::string num(double v) { std::ostringstream o; o << std::setprecision(15) << v; return o.str(); }
struct TmpDir {
  std::string path;
  TmpDir() { char b[] = "/tmp/vf_c29_XXXXXX"; if (!mkdtemp(b)) { perror("mkdtemp"); exit(3); } path = b; }
  ~TmpDir() { for (auto &f : files) { ::unlink((path + "/" + f).c_str()); } ::rmdir(path.c_str()); }
  std::set<std::string> files;
  std::string name(const std::string &f) { files.insert(f); return path + "/" + f; }
  std::string put(const std::string &f, const std::string &c) { auto n = name(f); std::ofstream{n, std::ios::binary} << c; return n; }
  std::string get(const std::string &f) { std::ifstream i{path + "/" + f, std::ios::binary}; std::ostringstream o; o << i.rdbuf(); return o.str(); }
  bool has(const std::string &f) { return 0 == access((path + "/" + f).c_str(), R_OK); }
};
struct Res { int code = 0; bool signalled = false; std::string out; };
// runs a tool's main in a child process standing in td
Res run(TmpDir &td, int (*m)(int, char **), std::vector<std::string> args, const std::string &prog, int limit = 35) {
  std::vector<char *> av{const_cast<char *>(prog.c_str())};
  for (auto &a : args) { av.push_back(const_cast<char *>(a.c_str())); }
  av.push_back(nullptr);
  auto out = td.name("stdout.txt");
  fflush(nullptr); std::cout.flush();
  pid_t pid = fork();
  if (pid == 0) {
    if (chdir(td.path.c_str())) { _exit(99); }
    int fd = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600), nul = open("/dev/null", O_WRONLY);
    dup2(fd, 1); dup2(nul, 2); alarm(limit);
    std::cout.rdbuf((new std::ofstream{out, std::ios::app})->rdbuf()); std::cout << std::unitbuf; // muted in the parent
    int r = m((int)av.size() - 1, av.data());
    std::cout.flush(); fflush(nullptr); _exit(r & 255);
  }
  int st = 0; waitpid(pid, &st, 0);
  Res r; r.signalled = !WIFEXITED(st); r.code = WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st);
  r.out = td.get("stdout.txt");
  return r;
}
using Cfg = std::map<std::string, std::string>;
void common_cfg(Rng &rng, Cfg &c, bool gm) {
  c["slam/map/meters_per_cell"] = num(rng.pickd({0.1, 0.2, 0.25}));
  c["slam/map/width_in_meters"] = num(rng.uni(2, 6)); c["slam/map/height_in_meters"] = num(rng.uni(2, 6));
  c["slam/mapping/blur"] = num(rng.pickd({0, 0.3, 0.5}));
  c["slam/mapping/grid/type"] = "unbounded_plain";
  const char *areas[] = {"tbm_consistent", "tbm_unknown_even_occ", "affine_quality_merge", "mean_probability"};
  c["slam/mapping/grid/area/type"] = areas[rng.below(4)];
  c["slam/occupancy_estimator/type"] = rng.chance(0.7) ? "const" : "area";
  c["slam/scmtch/spe/type"] = "wmpp";
  const char *ws[] = {"even", "viny", "ahr"}; c["slam/scmtch/spe/wmpp/weighting/type"] = ws[rng.below(3)];
  if (rng.chance(0.6)) { c["slam/scmtch/spe/wmpp/sp_skip_rate"] = std::to_string(rng.below(5)); }
  if (rng.chance(0.3)) { c["slam/scmtch/spe/wmpp/sp_max_usable_range"] = num(rng.pickd({2, 4})); }
  c["slam/scmtch/oie/type"] = rng.chance(0.5) ? "discrepancy" : "occupancy";
  const char *sms[] = {"MC", "HC", "BF", "BF_M3RSM", "idle"};
  c["slam/scmtch/type"] = sms[rng.below(5)];
  if (gm) {
    c["slam/particles/number"] = std::to_string(rng.range(1, 4));
    c["slam/scmtch/oope/type"] = "custom";
  } else { const char *oopes[] = {"obstacle", "max", "mean", "overlap"}; c["slam/scmtch/oope/type"] = oopes[rng.below(4)]; }
  c["slam/scmtch/MC/seed"] = std::to_string(rng.below(100000));
  c["slam/scmtch/MC/attempts_limit"] = "30";
  for (auto d : {"x", "y", "t"}) { c[std::string{"slam/scmtch/BF/"} + d + "/from"] = "-0.1"; c[std::string{"slam/scmtch/BF/"} + d + "/to"] = "0.1"; c[std::string{"slam/scmtch/BF/"} + d + "/step"] = "0.05"; }
  c["slam/scmtch/BF_M3RSM/accuracy/rotation"] = "0.05"; c["slam/scmtch/BF_M3RSM/accuracy/translation"] = "0.1";
  c["slam/scmtch/BF_M3RSM/limits/x_translation"] = "0.2"; c["slam/scmtch/BF_M3RSM/limits/y_translation"] = "0.2"; c["slam/scmtch/BF_M3RSM/limits/rotation"] = "0.05";
}
std::string cfg_text(const Cfg &c) { std::string s; for (auto &e : c) { s += e.first + "=" + e.second + "\n"; } return s; }
std::string what_cfg(const Cfg &c) {
  std::string s;
  for (auto k : {"slam/scmtch/type", "slam/scmtch/spe/wmpp/sp_skip_rate", "slam/scmtch/spe/wmpp/weighting/type", "slam/scmtch/oope/type", "slam/mapping/grid/area/type"}) {
    auto i = c.find(k); if (i != c.end()) { s += " " + i->second; }
  }
  return s;
}
} // namespace
namespace ros_stub {
BagData load_bag(const std::string &n) {
  if (n != g_bag_name) { throw rosbag::BagException("no such bag: " + n); }
  return g_bag;
}
}

// ---------------------------------------------------------------- sm_runner
FAMILY(matching, 240, 6000) {
  MuteLog mute;
  TmpDir td;
  Cfg c; common_cfg(rng, c, false);
  auto cf = td.put("c.properties", cfg_text(c));
  FilePropertiesProvider props; props.append_file_content(cf);
  auto map = init_grid_map(props);
  auto sc = Scene::room(rng, rng.uni(1.5, 3));
  sc.draw(rng, *map, rng.chance(0.7));
  auto st = map->save_state();
  auto mf = td.put("m.map", std::string(st.begin(), st.end()));
  RobotPose truth{rng.uni(-.3, .3), rng.uni(-.3, .3), rng.uni(-3, 3)};
  RobotPose guess{truth.x + rng.uni(-.1, .1), truth.y + rng.uni(-.1, .1), truth.theta + rng.uni(-.05, .05)};
  auto scan = sc.scan(truth, rng.range(10, 60), rng.pickd({1.5, 10}), rng.pickd({2 * M_PI, 4}));
  std::ostringstream ss; ss << scan; auto sf = td.put("s.scan2D", ss.str());
  std::ostringstream psm; psm << guess.x << " " << guess.y << " " << guess.theta;
  auto pf = td.put("p.pose2D", psm.str());
  auto r = run(td, sm_runner_main, {cf, pf, mf, sf}, "sm_runner");
  auto what = "sm_runner" + what_cfg(c) + " at " + ps(guess);
  VF_CHECK(!r.signalled && r.code == 0, "matching-failed", what << ": " << (r.signalled ? "signal " : "exit ") << r.code << " " << r.out);
  // the same by hand, from the same files
  RobotPose p0; { std::ifstream i{pf}; i >> p0.x >> p0.y >> p0.theta; }
  TransformedLaserScan ts; ts.quality = 1; { std::ifstream i{sf}; i >> ts.scan; }
  VF_CHECK(ts.scan.points().size() == scan.points().size(), "scan-io", what);
  auto m2 = init_grid_map(props); m2->load_state(st);
  auto sm = init_scan_matcher(props);
  RobotPoseDelta d{0, 0, 0};
  double prob = sm->process_scan(ts, p0, *m2, d);
  std::ostringstream want; want << "Pose delta: " << d << " with probability " << prob;
  VF_CHECK(r.out.find(want.str()) != std::string::npos, "matching-result", what << ": expected \"" << want.str() << "\", reported \"" << r.out << "\"");
  count("matchings_compared"); eval(); distinct(Hash{}.add(d.x).add(d.theta).add(prob).h);
}
FAMILY(bad_inputs, 240, 6000) {
  MuteLog mute;
  TmpDir td;
  Cfg c; common_cfg(rng, c, false); c["slam/scmtch/type"] = rng.chance(0.5) ? "HC" : "BF_M3RSM";
  auto cf = td.put("c.properties", cfg_text(c));
  FilePropertiesProvider props; props.append_file_content(cf);
  auto map = init_grid_map(props);
  for (int i = rng.range(0, 50); i; --i) { map->update(map->world_to_cell({rng.uni(-3, 3), rng.uni(-3, 3)}), mk_obs(0.9, 1, 1, true)); }
  auto st = map->save_state(); std::string ms(st.begin(), st.end());
  std::string pose = "0.1 0.2 0.3", scan = "3\n1 0 1\n1.5 1 1\n2 -1 0\n";
  std::vector<std::string> args{"c.properties", "p", "m", "s"};
  std::string kind;
  auto cut = [&](const std::string &s) { return s.substr(0, rng.below(s.size())); };
  switch (rng.below(9)) {
  case 0: kind = "truncated pose"; { const char *v[] = {"", "1", "1 2", "1 2 ", "\n", "1 2 x", "a b c", "1,2,3"}; pose = v[rng.below(8)]; } break;
  case 1: kind = "truncated map"; ms = cut(ms); if (c["slam/scmtch/type"] == "BF_M3RSM" && rng.chance(0.2)) { ms = ""; } break;
  case 2: kind = "truncated scan"; { const char *v[] = {"", "x", "3\n1 0 1\n1.5 1 1\n", "3\n1 0 1\n1.5 1", "3\n1 0 1\n1.5 1 1\n2 -1 ", "3\n1 0 1\n1.5 1 1\n2 -1 7\n", "2\n1 zero 1\n1 0 1\n", "99999999999999999999\n1 0 1\n"}; scan = v[rng.below(8)]; } break;
  case 3: kind = "no pose"; args[1] = "nosuch"; break;
  case 4: kind = "no map"; args[2] = "nosuch"; break;
  case 5: kind = "no scan"; args[3] = "nosuch"; break;
  case 6: kind = "no configuration"; args[0] = "nosuch"; break;
  case 7: kind = "arguments"; if (rng.chance(0.5)) { args.pop_back(); } else { args.push_back("more"); } if (rng.chance(0.3)) { args.clear(); } break;
  default: kind = "unknown type"; { const char *k[] = {"slam/scmtch/type", "slam/mapping/grid/type", "slam/scmtch/spe/type", "slam/mapping/grid/area/type"}; c[k[rng.below(4)]] = "bad"; td.put("c.properties", cfg_text(c)); } break;
  }
  td.put("p", pose); td.put("m", ms); td.put("s", scan);
  auto r = run(td, sm_runner_main, args, "sm_runner");
  VF_CHECK(!r.signalled && r.code != 0 && r.code < 128 + 128, "bad-input", "sm_runner, " << kind << " (pose \"" << pose << "\" scan \"" << scan << "\" map of " << ms.size() << "/" << st.size() << " bytes): "
           << (r.signalled ? "signal " : "exit ") << r.code << " " << r.out);
  VF_CHECK(r.out.find("Pose delta") == std::string::npos, "bad-input-result", "sm_runner, " << kind << " reported " << r.out);
  count("bad_inputs_refused"); eval(); distinct(std::hash<std::string>{}(kind + pose + scan) + ms.size());
}
// ---------------------------------------------------------------- search space evaluator
FAMILY(search_space, 3, 3) {
  MuteLog mute;
  static int (*const cases[])(int, char **) = {
    [](int, char **) { run_closed_corridor_case(); return 0; }, [](int, char **) { run_open_corridor_case(); return 0; },
    [](int, char **) { run_several_corridors_case(); return 0; }};
  int k = st().idx % 3;
  TmpDir td;
  auto r = run(td, cases[k], {}, "p2D_ss_evaluator", 300);
  VF_CHECK(!r.signalled && r.code == 0, "p2d-failed", "search space of corridor " << k + 1 << ": " << (r.signalled ? "signal " : "exit ") << r.code << " " << r.out);
  for (auto f : {"input_map_0.pgm", "scan_0.pgm", "sss_map_0.pgm"}) {
    td.files.insert(f);
    auto s = td.get(f); int w = 0, h = 0, used = 0;
    VF_CHECK(std::sscanf(s.c_str(), "P5\n%d\n%d\n255\n%n", &w, &h, &used) == 2 && 0 < used && s.size() == used + (size_t)w * h && 50 <= w && 50 <= h, "p2d-image", f << " of " << s.size() << " bytes");
    std::set<unsigned char> vals(s.begin() + used, s.end());
    VF_CHECK(2 <= vals.size(), "p2d-image-empty", f << " of corridor " << k + 1 << " holds a single value");
  }
  count("search_spaces"); eval(); distinct(Hash{}.add(k).h);
}
// ---------------------------------------------------------------- bag runner
namespace {
geometry_msgs::TransformStamped ts(const std::string &from, const std::string &to, uint64_t t, double x, double y, double th) {
  geometry_msgs::TransformStamped s;
  s.header.frame_id = from; s.child_frame_id = to; s.header.stamp = ros::Time::from_ns(t);
  s.transform.translation.x = x; s.transform.translation.y = y;
  s.transform.rotation.z = std::sin(th / 2); s.transform.rotation.w = std::cos(th / 2);
  return s;
}
struct Rec { uint64_t t; boost::shared_ptr<Scan> m; double x, y, th; };
}
FAMILY(bag_run, 120, 3000) {
  MuteLog mute;
  TmpDir td;
  bool gm = rng.chance(0.2), skip = rng.chance(0.5), trig = rng.chance(0.5);
  Cfg c; common_cfg(rng, c, gm);
  c["in/lscan2D/ros/topic/enabled"] = "true"; c["in/odometry/ros/tf/enabled"] = "true";
  std::string topic = "/base_scan", tfn = "/tf", odom = "odom_combined";
  if (rng.chance(0.5)) { topic = "/scan"; c["in/lscan2D/ros/topic/name"] = topic; }
  if (rng.chance(0.3)) { tfn = "/tf_old"; c["in/odometry/ros/tf/name"] = tfn; }
  if (rng.chance(0.5)) { odom = "odom"; c["in/odometry/ros/tf/odom_frame_id"] = odom; }
  if (skip || rng.chance(0.5)) { c["in/lscan2D/skip_exceeding_vals"] = skip ? "true" : "false"; }
  if (trig || rng.chance(0.5)) { c["slam/performance/use_trig_cache"] = trig ? "true" : "false"; }
  bool ign = rng.chance(0.3); if (ign) { c["in/odometry/ros/tf/ignore"] = "x-y:fake-laser"; }
  auto sc = Scene::room(rng, rng.uni(1.5, 3));
  uint64_t t = 1000000000ull * rng.below(2000000000) + rng.below(1000000000);
  RobotPose p{rng.uni(-.3, .3), rng.uni(-.3, .3), rng.uni(-3, 3)};
  std::vector<Rec> recs; g_bag.clear(); g_bag_name = "x.bag";
  float rmax = rng.pickd({2.5, 10});
  int n = rng.range(8, 40); float inc = rng.chance(0.5) ? float(2 * M_PI / n) : float(deg2rad(5));
  auto other = [&](const std::string &topic) { // noise: another topic
    rosbag::MessageInstance mi; mi.time = ros::Time::from_ns(t); mi.topic = topic; mi.scan = boost::make_shared<Scan>();
    mi.scan->header.frame_id = "/laser"; mi.scan->header.stamp = ros::Time::from_ns(t); mi.scan->ranges = {1, 1}; mi.scan->range_max = 5; g_bag.push_back(mi);
  };
  int ns = rng.range(1, 14);
  for (int i = 0; i <= ns; ++i) {
    rosbag::MessageInstance mi; mi.time = ros::Time::from_ns(t); mi.topic = tfn; mi.tfm = boost::make_shared<tf::tfMessage>();
    mi.tfm->transforms.push_back(ts("/" + odom, "/laser", t, p.x, p.y, p.theta));
    if (ign) { mi.tfm->transforms.push_back(ts("/fake", "/laser", t, 50, 50, 2)); }
    g_bag.push_back(mi);
    if (rng.chance(0.1)) { other("/other_scan"); }
    if (i == ns) { break; }
    auto m = boost::make_shared<Scan>(); m->header.frame_id = "/laser"; m->header.stamp = ros::Time::from_ns(t); m->header.seq = i;
    m->angle_min = -inc * (n / 2); m->angle_increment = inc; m->angle_max = m->angle_min + inc * (n - 1); m->range_min = 0.05; m->range_max = rmax;
    for (int k = 0; k < n; ++k) { auto r = sc.cast({p.x, p.y}, p.theta + m->angle_min + k * inc); m->ranges.push_back(rng.chance(0.05) ? NAN : rng.chance(0.05) ? 0 : r); }
    rosbag::MessageInstance ms; ms.time = ros::Time::from_ns(t); ms.topic = topic; ms.scan = m; g_bag.push_back(ms);
    recs.push_back({t, m, p.x, p.y, p.theta});
    t += 1000000 + rng.below(500000000);
    if (rng.chance(0.25)) { count("stood_still"); continue; }
    p = RobotPose{p.x + rng.uni(-.1, .1), p.y + rng.uni(-.1, .1), p.theta + rng.uni(-.1, .1)};
    if (rng.chance(0.3)) { p = RobotPose{p.x + rng.uni(-.5, .5), p.y + rng.uni(-.5, .5), p.theta}; }
  }
  auto cf = td.put("c.properties", cfg_text(c));
  std::vector<std::string> args{gm ? "gmapping" : rng.chance(0.5) ? "viny" : "tiny", "x.bag"};
  bool traj = rng.chance(0.9), img = rng.chance(0.9), verbose = rng.chance(0.3);
  auto opt = [&](std::vector<std::string> o) { // options come anywhere
    std::vector<int> at{0, (int)args.size()};
    args.insert(rng.chance(0.5) ? args.end() : args.begin(), o.begin(), o.end());
  };
  if (rng.chance(0.3)) { // the settings come in two files, the second one prevails
    Cfg first, second;
    for (auto &e : c) { (rng.chance(0.5) ? first : second).insert(e); }
    if (second.count("in/lscan2D/skip_exceeding_vals") && rng.chance(0.7)) { first["in/lscan2D/skip_exceeding_vals"] = skip ? "false" : "true"; }
    if (second.count("in/lscan2D/ros/topic/name") && rng.chance(0.7)) { first["in/lscan2D/ros/topic/name"] = "/other_scan"; }
    opt({"-p", td.put("first.properties", cfg_text(first)), "-p", td.put("second.properties", cfg_text(second))});
    count("settings_in_two_files");
  } else { opt({"-p", cf}); }
  if (traj) { opt({"-t", td.name("traj.txt")}); }
  if (img) { opt({"-m", td.name("map.pgm")}); }
  if (rng.chance(0.3)) { // an earlier run's results
    if (traj) { td.put("traj.txt", "1.5 9 9 0 0 0 0 1\n2.5 9 9 0 0 0 0 1\n"); count("overwritten_results"); }
    if (img) { td.put("map.pgm", "P5\n400 400\n255\n" + std::string(160000, 'x')); count("overwritten_results"); }
  }
  if (verbose) { opt({"-v"}); }
  auto r = run(td, bag_runner_main, args, "lslam2D_bag_runner");
  std::string what = "bag runner"; for (auto &a : args) { what += " " + a.substr(a.rfind('/') + 1); }
  what += what_cfg(c) + ", " + std::to_string(ns) + " scans";
  VF_CHECK(!r.signalled && r.code == 0, "bag-run-failed", what << ": " << (r.signalled ? "signal " : "exit ") << r.code << " " << r.out.substr(0, 2000));
  eval();
  // the same by hand: message -> scan -> SLAM
  FilePropertiesProvider props; props.append_file_content(cf);
  std::vector<RobotPose> want; std::string want_img; bool sensitive = false;
  if (gm) { count("gmapping_runs"); }
  else {
    auto by_hand = [&](double jitter) {
      auto slam = init_1h_slam(props);
      std::vector<RobotPose> res;
      RobotPose prev{0, 0, 0};
      for (auto &e : recs) {
        TransformedLaserScan s; s.quality = 1;
        if (trig) { auto tp = std::make_shared<CachedTrigonometryProvider>(); tp->update(e.m->angle_min, e.m->angle_max, e.m->angle_increment); s.scan.trig_provider = tp; }
        double a = e.m->angle_min;
        for (float r : e.m->ranges) {
          double th = a; a += e.m->angle_increment;
          if (!(e.m->range_min <= r)) { continue; }
          if (r < e.m->range_max) { s.scan.points().emplace_back(r, th, true); }
          else if (!skip) { s.scan.points().emplace_back(e.m->range_max, th, false); }
        }
        double yaw = std::remainder(e.th, 2 * M_PI);
        RobotPose now{e.x + jitter, e.y - jitter, yaw + jitter};
        s.pose_delta = now - prev; prev = now;
        slam->handle_sensor_data(s);
        res.push_back(slam->pose());
      }
      auto f = td.name("want.pgm");
      { std::ofstream o{f, std::ios::binary}; GridMapToPgmDumber::dump_map(o, slam->map()); }
      return std::make_pair(res, td.get("want.pgm"));
    };
    std::tie(want, want_img) = by_hand(0);
    // rounding of the transform algebra may tip a balanced decision: such runs can't be compared
    for (double j : {1e-12, -1e-12}) {
      auto o = by_hand(j);
      for (size_t i = 0; i < want.size(); ++i) { sensitive |= !same_pose(want[i], o.first[i], 1e-6); }
      sensitive |= o.second != want_img;
    }
    if (sensitive) { count("sensitive_runs"); }
  }
  if (verbose) {
    for (int i = 1; i <= ns; ++i) { VF_CHECK(r.out.find("Handled scan #" + std::to_string(i) + "\n") != std::string::npos, "verbose", what << ": scan " << i << " isn't reported"); }
    VF_CHECK(r.out.find("Handled scan #" + std::to_string(ns + 1) + "\n") == std::string::npos, "verbose", what << ": a surplus scan is reported");
  }
  bool exact = true;
  if (traj) {
    std::istringstream is{td.get("traj.txt")}; std::string line; size_t i = 0;
    for (; std::getline(is, line); ++i) {
      VF_CHECK(i < recs.size(), "trajectory-length", what << ": " << i + 1 << " lines");
      auto sp = line.find(' '); std::ostringstream st; st << recs[i].m->header.stamp;
      VF_CHECK(line.substr(0, sp) == st.str(), "trajectory-time", what << ": line " << i << " \"" << line << "\" of the scan at " << st.str());
      std::istringstream ls{line.substr(sp)}; double x, y, z, qx, qy, qz, qw; ls >> x >> y >> z >> qx >> qy >> qz >> qw;
      VF_CHECK(ls && z == 0 && std::isfinite(x + y + qz + qw) && near(qz * qz + qw * qw, 1, 1e-4), "trajectory-line", what << ": \"" << line << "\"");
      count("trajectory_lines");
      if (gm || sensitive) { continue; }
      auto &e = want[i];
      bool ok = near(x, e.x, 1e-4) && near(y, e.y, 1e-4) && std::abs(std::remainder(2 * std::atan2(qz, qw) - e.theta, 2 * M_PI)) < 1e-4;
      VF_CHECK(ok, "trajectory-pose", what << ": scan " << i << " of " << ns << " is reported at \"" << line << "\", the SLAM computes " << ps(e));
      exact = exact && ok;
      distinct(Hash{}.add(x).add(y).add(qz).h);
    }
    VF_CHECK(i == recs.size(), "trajectory-length", what << ": " << i << " lines");
  }
  if (img) {
    auto s = td.get("map.pgm"); int w = 0, h = 0, used = 0;
    VF_CHECK(std::sscanf(s.c_str(), "P5\n%d\n%d\n255\n%n", &w, &h, &used) == 2 && s.size() == used + (size_t)w * h, "map-image", what << ": image of " << s.size() << " bytes, " << w << "x" << h);
    count("map_images");
    if (!gm && !sensitive) { count("runs_compared");
      VF_CHECK(s.size() == want_img.size(), "map-image-size", what << ": " << s.size() << " bytes instead of " << want_img.size());
      size_t diff = 0; for (size_t i = 0; i < s.size(); ++i) { diff += 1 < std::abs((unsigned char)s[i] - (unsigned char)want_img[i]); }
      VF_CHECK(diff == 0, "map-image-content", what << ": " << diff << " of " << s.size() << " pixels differ from the SLAM's map");
    }
  } else { VF_CHECK(!td.has("map.pgm"), "map-image-unasked", what); }
}
FAMILY(bad_arguments, 30, 300) {
  MuteLog mute;
  TmpDir td; g_bag.clear(); g_bag_name = "x.bag";
  auto cf = td.put("c.properties", "a=b\n");
  std::vector<std::vector<std::string>> v = {{}, {"viny"}, {"viny", "x.bag", "more"}, {"-p", cf}, {"-v"}, {"-p", cf, "viny"}, {"viny", "-v"}, {"a", "b", "c", "d"}, {"gmapping", "-t", td.name("t.txt"), "-m", td.name("m.pgm")}};
  auto a = v[st().idx % v.size()];
  auto r = run(td, bag_runner_main, a, "lslam2D_bag_runner");
  VF_CHECK(!r.signalled && r.code != 0 && r.out.find("Args:") != std::string::npos, "bad-arguments", "bag runner with " << a.size() << " arguments: " << (r.signalled ? "signal " : "exit ") << r.code << " " << r.out);
  count("bad_arguments"); eval(); distinct(Hash{}.add(st().idx % v.size()).h);
}
VF_MAIN
