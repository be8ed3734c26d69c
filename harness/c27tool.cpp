// C27, further programs: a command line tool that runs out of memory does not report success for a result that is wrong.
// (pcd_to_cloudini_converter is left out: PCL itself hangs when its PCD reader has no memory.)
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

#include <iostream>

#include "bag.hpp"
#include "oom.hpp"
using namespace bag;
using namespace oom;
int tool_main(int, char**);
static std::map<std::string, Bytes> tree(const fs::path& d) {
  std::map<std::string, Bytes> t;
  for (auto& e : fs::recursive_directory_iterator(d))
    if (e.is_regular_file()) t[fs::relative(e.path(), d).string()] = slurp(e.path());
  return t;
}
struct Null : std::streambuf {
  int overflow(int c) override { return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
// in a process of its own, which may end abnormally
static int run(std::vector<std::string> args) {
  args.insert(args.begin(), "tool");
  std::vector<char*> av;
  for (auto& a : args) av.push_back(a.data());
  av.push_back(nullptr);
  vh::transition();
  int fd[2];
  if (pipe(fd)) abort();
  const pid_t p = fork();
  if (p == 0) {
    std::set_terminate([] { _exit(134); });
    const int null_fd = open("/dev/null", O_WRONLY);
    dup2(null_fd, 2);
    Null null;
    std::cin.rdbuf(&null), std::cout.rdbuf(&null), std::cerr.rdbuf(&null);
    int rc;
    try {
      Armed armed;
      rc = tool_main(int(args.size()), av.data());
    } catch (const std::exception&) {
      rc = 134;
    }
    g_armed = false;
    if (write(fd[1], &g_count, sizeof g_count) != sizeof g_count) rc = 99;
    _exit(rc);
  }
  close(fd[1]);
  if (read(fd[0], &g_count, sizeof g_count) != sizeof g_count) g_count = 0;
  close(fd[0]);
  int st = 0;
  waitpid(p, &st, 0);
  // an abnormal end is no success (libstdc++ itself crashes if an allocation of its directory_iterator fails)
  return WIFSIGNALED(st) ? 134 : WEXITSTATUS(st);
}
// prepare() makes the input files in the current directory
static void explore_tool(const std::string& name, const std::function<void()>& prepare, const std::vector<std::string>& args) {
  oom::t_main = 1;
  long n = 0;
  std::map<std::string, Bytes> before, want;
  for (int i = 0; i < 2; i++) {  // the second run: what is allocated once is there
    Scratch s;
    fs::current_path(s.dir);
    prepare();
    before = tree(s.dir);
    g_first = g_second = -1, g_count = 0;
    if (run(args)) vh::fail("refused", "the tool refuses a legal input");
    n = g_count;
    want = tree(s.dir);
  }
  vh::extra("allocations that fail", n);
  const bool T = vh::thorough();
  for (long k = 0; k < n; k += T || k < 400 ? 1 : 1 + k % 3)
    for (int mode = 1; mode <= 2; mode++) {
      vh::beat();
      Scratch s;
      fs::current_path(s.dir);
      prepare();
      g_count = 0, g_first = k, g_last = mode == 2 ? 1L << 60 : k;
      const int rc = run(args);
      g_first = -1;
      vh::outcome(rc == 134 || rc == 86 ? "terminates" : rc ? "refused" : "ok");
      auto after = tree(s.dir);
      for (auto& [f, b] : before)
        if (want.at(f) == b && (!after.count(f) || after.at(f) != b)) vh::fail("input", "%s changed", f.c_str());
      if (!rc && after != want) {
        std::string what;
        for (auto& [f, b] : want)
          if (!after.count(f)) what += " " + f + " is missing";
          else if (after.at(f) != b) what += vh::fmt(" %s: %zu bytes instead of %zu, or different ones", f.c_str(), after.at(f).size(), b.size());
        vh::fail("success", "the tool reports success, but the result differs from that of a run which had enough memory:%s", what.c_str());
      }
      vh::state(vh::hash_bytes(name.data(), name.size(), uint64_t(k * 2 + mode)));
      vh::validated();
    }
  fs::current_path("/");
}
int main(int argc, char** argv) {
  vh::init(argc, argv);
  using V = std::vector<std::string>;
  for (int how = 0; how < 4; how++)
    for (int variant = 0; variant < 3; variant++) {
      const auto id = vh::fmt("bag/%d/%d", how, variant);
      vh::run_case(id, [&] {
        const Bag in = make_bag({kCloud, kText, kCompressed}, {0, 1, 2, 0}, variant);
        const Bytes file = to_file(in);
        const std::string meta = "rosbag2_bagfile_information:\n  relative_file_paths:\n    - in.mcap\n  topics:\n    - type: " + kPlain + "\n    - type: " + kPacked + "\n";
        const bool dir = how % 2;
        auto prepare = [&] {
          if (dir) fs::create_directories("d"), spit("d/metadata.yaml", Bytes(meta.begin(), meta.end()));
          spit(dir ? "d/in.mcap" : "in.mcap", file);
        };
#if TOOL == 1  // cloudini_rosbag_converter
        V a{"-f", dir ? "d" : "in.mcap", how / 2 ? "-d" : "-c", "-y"};
        if (variant == 1 && how / 2 == 0) a.insert(a.end(), {"-r", "0.25", "--profile", "intensity:remove;x:0.5"});
#else  // mcap_cutter
        V a{"-f", dir ? "d/in.mcap" : "in.mcap", "-n", how / 2 ? "1" : "1000"};
#endif
        explore_tool(id, prepare, a);
      });
    }
  return vh::finish();
}
