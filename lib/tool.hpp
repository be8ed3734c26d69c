// Calls a command line tool, whose main() was renamed to tool_main by the build.
#pragma once
#include <iostream>

#include "bag.hpp"
int tool_main(int, char**);
namespace bag {
struct Outcome {
  int rc = 0;
  bool threw = false;
};
inline std::string g_out;  // what the last call printed (stdout, then stderr)
inline Outcome tool(std::vector<std::string> args, const std::string& answers = "") {
  args.insert(args.begin(), "tool");
  std::vector<char*> av;
  for (auto& a : args) av.push_back(a.data());
  av.push_back(nullptr);
  std::istringstream in(answers);
  std::ostringstream out, err;
  auto *a = std::cin.rdbuf(in.rdbuf()), *b = std::cout.rdbuf(out.rdbuf()), *c = std::cerr.rdbuf(err.rdbuf());
  std::cin.clear();
  Outcome o;
  std::string what;
  try {
    o.rc = tool_main(int(args.size()), av.data());
  } catch (const std::exception& e) {
    o.threw = true;
    what = e.what();
  }
  std::cin.rdbuf(a), std::cout.rdbuf(b), std::cerr.rdbuf(c);
  g_out = out.str() + err.str();
  vh::transition();
  vh::outcome(o.threw ? "terminates" : o.rc ? "refused" : "ok");
  if (o.threw) vh::fail("terminates", "an exception leaves main(): %s", what.c_str());
  return o;
}
// everything below a directory
inline std::map<std::string, Bytes> tree(const fs::path& d) {
  std::map<std::string, Bytes> t;
  for (auto& e : fs::recursive_directory_iterator(d))
    if (e.is_regular_file()) t[fs::relative(e.path(), d).string()] = slurp(e.path());
  return t;
}
}  // namespace bag
