// C23: clouds handed out by the PCL subscriber stay valid and unchanged as long as the application holds them.
// Built twice: with AddressSanitizer (all histories of one thread) and, with -DMC, under the controlled scheduler.
#include "cloudini_ros/cloudini_subscriber_pcl.hpp"
#include "cloudini_ros/conversion_utils.hpp"
#include "ros.hpp"

#include <set>
#ifdef MC
#include <thread>

#include "mcx.hpp"
#endif
using namespace rosx;
using Ptr = pcl::PCLPointCloud2::Ptr;

struct Source {
  Raw raw;
  std::shared_ptr<rclcpp::SerializedMessage> wire;
};
static std::shared_ptr<rclcpp::SerializedMessage> smsg(const Bytes& b) {
  auto m = std::make_shared<rclcpp::SerializedMessage>(b.size());
  auto& r = m->get_rcl_serialized_message();
  if (!b.empty()) memcpy(r.buffer, b.data(), b.size());
  r.buffer_length = b.size();
  return m;
}
static std::vector<Source>& sources() {
  static std::vector<Source> s;
  if (s.empty()) {
    static const std::vector<std::vector<int>> lay{{0, 0, 0}, {0, 0, 0, 7}, {5}, {3, 6}};
    for (int i = 0; i < 4; i++) {
      uint32_t step;
      auto f = layout(lay[i], i % 3, step, 1.f);
      Source x;
      x.raw = raw_msg(1, uint32_t(2 + 3 * i), f, step, make_cloud(2 + 3 * i, f, step, 1), i);
      std::vector<uint8_t> b;
      Cloudini::SerializeCompressedPointCloud2(x.raw, 0.25f, b);
      x.wire = smsg(b);
      s.push_back(x);
    }
    Bytes bad(s[0].wire->get_rcl_serialized_message().buffer, s[0].wire->get_rcl_serialized_message().buffer + s[0].wire->size() - 30);
    s.push_back({s[0].raw, smsg(bad)});
  }
  return s;
}
struct Held {
  Ptr p;
  int src;
};
struct App {
  std::shared_ptr<rclcpp::Node> node = std::make_shared<rclcpp::Node>("n");
  std::vector<Held> held;
  std::unique_ptr<cloudini_ros::CloudiniSubscriberPCL> sub;
  rclcpp::GenericSubscription::SharedPtr topic;
  int current = 0;
  bool keep = true, thrower = false;
  int calls = 0;
  App() {
    sub = std::make_unique<cloudini_ros::CloudiniSubscriberPCL>(node.get(), "/c", [this](const Ptr& p) {
      calls++;
      if (thrower) throw std::runtime_error("application");
      check({p, current}, "new cloud");
      if (keep) held.push_back({p, current});
    });
    topic = rclcpp::Graph::get().subs.back();
    rclcpp::Graph::get().subs.clear();
  }
  static void check(const Held& h, const char* what) { same_pcl(sources()[h.src].raw, 0.25f, *h.p, what); }
  void receive(int src, bool k) {
    current = src;
    keep = k;
    calls = 0;
    topic->callback(sources()[src].wire);
    vh::transition();
    if (calls != (src == 4 ? 0 : 1)) vh::fail("callback", "%d calls of the application for one message", calls);
    for (auto& h : held) check(h, "cloud held by the application");
    for (size_t i = 0; i < held.size(); i++)
      for (size_t j = i + 1; j < held.size(); j++)
        if (held[i].p.get() == held[j].p.get()) vh::fail("shared", "the same cloud was handed out twice");
  }
};

#ifndef MC
extern "C" size_t __sanitizer_get_current_allocated_bytes();
// whatever is allocated during a history is released at its end (except for caches that are filled once)
template <class Fn>
static bool all_memory_back(Fn&& fn) {
  bool r = true;
  size_t first = 0;
  for (int i = 0; i < 4; i++) {
    const size_t before = __sanitizer_get_current_allocated_bytes();
    r = fn();
    const size_t after = __sanitizer_get_current_allocated_bytes();
    if (after <= before) return r;
    if (i == 0) first = after - before;
    if (i == 3) vh::fail("leak", "every run of the history leaves memory behind (%zu bytes)", std::min(first, after - before));
  }
  return r;
}
int main(int argc, char** argv) {
  vh::init(argc, argv);
  const bool T = vh::thorough();
  pcl::PCLPointCloud2 dummy;
  static const char* kOps = "RXDFLTK";  // receive and keep, receive and drop, damaged, release first / last, application throws, destroy the subscriber
  for (int a = 0; a < 7; a++)
    for (int b = 0; b < 7; b++)
      vh::run_case_l([&] { return vh::fmt("histories/%c%c", kOps[a], kOps[b]); }, [&] {
        all_sequences(7, 0, T ? 5 : 4, [&](const std::vector<int>& d) {
          std::vector<int> s{a, b};
          s.insert(s.end(), d.begin(), d.end());
          const bool legal = all_memory_back([&] {
          App app;
          int n = 0;
          for (int o : s) {
            if (!app.sub && o != 3 && o != 4) return false;  // nothing is received any more
            switch (o) {
              case 0: app.receive(n++ % 4, true); break;
              case 1: app.receive(n++ % 4, false); break;
              case 2: app.receive(4, true); break;
              case 3:
                if (app.held.empty()) return false;
                app.held.erase(app.held.begin());
                break;
              case 4:
                if (app.held.size() < 2) return false;
                app.held.pop_back();
                break;
              case 5:
                app.thrower = true;
                app.receive(n++ % 4, false);
                app.thrower = false;
                break;
              case 6:
                app.topic.reset();
                app.sub.reset();
                break;
            }
            for (auto& h : app.held) App::check(h, "cloud held by the application");
            vh::transition();
          }
          if (n % 2) app.sub.reset();  // the subscriber goes first, or the clouds
          for (auto& h : app.held) App::check(h, "cloud held by the application");
          return true;
          });
          if (!legal) return;
          uint64_t st = 0;
          for (int o : s) st = st * 8 + o + 1;
          vh::state(st);
          vh::validated();
        });
      });
  // more clouds than the pool holds
  for (int n = 0; n <= 10; n++)
    vh::run_case(vh::fmt("pool/%d", n), [&] {
      for (int order = 0; order < 3; order++)
        for (int m = 0; m <= 10; m++)
          for (int rel = 0; rel <= n; rel++) all_memory_back([&] {
            App app;
            for (int i = 0; i < n; i++) app.receive((i * 3 + order) % 4, true);
            for (int i = 0; i < rel; i++) {
              size_t at = order == 0 ? 0 : order == 1 ? app.held.size() - 1 : app.held.size() / 2;
              app.held.erase(app.held.begin() + at);
            }
            for (int i = 0; i < m; i++) app.receive((i + order) % 4, i % 3 != 1);
            if (rel % 2) app.topic.reset(), app.sub.reset();
            for (auto& h : app.held) App::check(h, "cloud held by the application");
            vh::validated();
            return true;
          });
    });
  for (int n : {16, 17, 31, 33, 64, 65, 130, 257})
    vh::run_case(vh::fmt("many/%d", n), [&] {
      for (int order = 0; order < 3; order++)
        for (int rel : {0, 1, n / 2, n - 1, n})
          for (int kill = 0; kill < 2; kill++)
            all_memory_back([&] {
              App app;
              auto get = [&](int src) {
                app.current = src, app.keep = true;
                app.topic->callback(sources()[src].wire);
                vh::transition();
              };
              for (int i = 0; i < n; i++) get((i * 3 + order) % 4);
              for (int i = 0; i < rel; i++) app.held.erase(app.held.begin() + (order == 0 ? 0 : order == 1 ? app.held.size() - 1 : app.held.size() / 2));
              for (int i = 0; i < 12; i++) get(i % 4);
              if (kill) app.topic.reset(), app.sub.reset();
              std::set<const void*> distinct;
              for (auto& h : app.held) App::check(h, "cloud held by the application"), distinct.insert(h.p.get());
              if (distinct.size() != app.held.size() || int(app.held.size()) != n - rel + 12) vh::fail("shared", "the same cloud was handed out twice");
              vh::validated();
              return true;
            });
    });
  return vh::finish();
}
#else
int main(int argc, char** argv) {
  vh::init(argc, argv);
  const bool T = vh::thorough();
  sources();
  // `before` clouds are received and given to `consumers` threads that look at them and release them, while the
  // executor receives `during` more; then the subscriber is destroyed, before or after the threads have ended.
  for (int consumers = 1; consumers <= 2; consumers++)
    for (int before = consumers; before <= (T ? 4 : 3); before++)
      for (int during = 0; during <= 2; during++)
        for (int kill = 0; kill < 2; kill++)
          for (int copies = 0; copies < 2; copies++) {
            const bool small = consumers + before + during <= 3;
            if (!T && consumers == 2 && before + during > 4) continue;
            mc::Options o;
            o.preemptions = small ? -1 : T ? 3 : 2;
            vh::run_case_l([&] { return vh::fmt("interleavings/%dc/%d+%d/%s/%s/pb%d", consumers, before, during, kill ? "destroyed-first" : "joined-first", copies ? "shared" : "moved", o.preemptions); }, [&] {
              mcx::explore(vh::fmt("c23/%d/%d/%d/%d/%d", consumers, before, during, kill, copies), o, [&] {
                App app;
                for (int i = 0; i < before; i++) app.receive(i % 4, true);
                std::vector<std::vector<Held>> give(consumers);
                for (size_t i = 0; i < app.held.size(); i++) give[i % consumers].push_back(app.held[i]);
                if (copies && consumers == 2) give[1].push_back(give[0][0]);  // the same cloud in two threads
                app.held.clear();
                std::vector<std::thread> t;
                for (int c = 0; c < consumers; c++)
                  t.emplace_back([&g = give[c]] {
                    for (auto& h : g) {
                      App::check(h, "cloud held by another thread");
                      h.p.reset();
                    }
                  });
                for (int i = 0; i < during; i++) app.receive((i + 1) % 4, i % 2 == 0);
                if (kill) {
                  app.topic.reset();
                  app.sub.reset();
                }
                for (auto& x : t) x.join();
                for (auto& h : app.held) App::check(h, "cloud held by the application");
              });
            });
          }
  return vh::finish();
}
#endif
