// Operations on independent objects, run together in several threads under every interleaving.
#pragma once
#include <functional>
#include <thread>

#include "mcx.hpp"

namespace c20 {
using Bytes = std::vector<uint8_t>;
struct Op {
  std::string name;
  std::function<Bytes()> run;
};

inline void together(const std::vector<const Op*>& v, int preemptions) {
  std::string label;
  for (auto* o : v) label += (label.empty() ? "[" : " || [") + o->name + "]";
  vh::run_case(label, [&] {
    const size_t n = v.size();
    std::vector<Bytes> want(n);
    for (size_t k = 0; k < n; k++) want[k] = v[k]->run();
    mc::Options o;
    o.preemptions = preemptions;
    o.max_execs = 3000000;
    mcx::explore(label, o, [&] {
      std::vector<Bytes> got(n);
      std::vector<std::string> err(n);
      auto work = [&](size_t k) {
        try {
          got[k] = v[k]->run();
        } catch (const std::exception& e) {
          err[k] = e.what();
          if (err[k].empty()) err[k] = "(no text)";
        }
      };
      std::vector<std::thread> t;
      for (size_t k = 0; k + 1 < n; k++) t.emplace_back(work, k);
      work(n - 1);
      for (auto& x : t) x.join();
      for (size_t k = 0; k < n; k++) {
        if (!err[k].empty()) vh::fail("exception", "%s: unexpected exception: %s", v[k]->name.c_str(), err[k].c_str());
        if (got[k] != want[k]) vh::fail("result", "the result of %s depends on what another thread does with other objects", v[k]->name.c_str());
      }
    });
  });
}
}  // namespace c20
