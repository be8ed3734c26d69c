// C27, second program: running out of memory in the ROS 2 package (transport plugins, conversion helpers, topic converter,
// PCL subscriber) on the stand-ins for rclcpp and point_cloud_transport.
#include "cloudini_plugin/cloudini_publisher_plugin.hpp"
#include "cloudini_plugin/cloudini_subscriber_plugin.hpp"
#include "cloudini_ros/cloudini_subscriber_pcl.hpp"
#include "cloudini_ros/conversion_utils.hpp"
#include "oom.hpp"
#include "rclcpp_components/register_node_macro.hpp"
#include "ros.hpp"
using namespace rosx;
using namespace oom;
using cloudini_point_cloud_transport::CloudiniPublisher;
using cloudini_point_cloud_transport::CloudiniSubscriber;

static std::shared_ptr<rclcpp::SerializedMessage> smsg(const Bytes& b) {
  auto m = std::make_shared<rclcpp::SerializedMessage>(b.size());
  auto& r = m->get_rcl_serialized_message();
  if (!b.empty()) memcpy(r.buffer, b.data(), b.size());
  r.buffer_length = b.size();
  return m;
}
struct Input {
  Raw raw;
  Packed packed;
  Bytes plain, wire;  // serialized raw, packed
};
struct Two {
  Input k[2];
};
static Input make_input(int lay, int n, float res) {
  static const std::vector<std::vector<int>> lays{{0, 0, 0, 7}, {0, 0, 0, 0, 2}, {5, 9, 3}, {0, 0, 0, 4, 6, 8, 3, 1}, {9, 7}};
  uint32_t step;
  auto f = layout(lays[lay % 5], lay % 3, step, 1.f);
  f[0].name += " a long name of a field, which needs memory of its own";
  Input k;
  k.raw = raw_msg(1 + lay % 2, uint32_t(n), f, step, make_cloud(n * (1 + lay % 2), f, step, 1), lay);
  k.raw.header.frame_id = "a frame whose name does not fit into the string";
  CloudiniPublisher pub;
  pub.params["cloudini_resolution"] = rclcpp::Parameter("cloudini_resolution", double(res));
  pub.declareParameters("points");
  k.packed = **pub.encodeTyped(k.raw);
  k.plain = cdr::write(to_cdr(k.raw));
  Cloudini::SerializeCompressedPointCloud2(k.raw, res, k.wire);
  return k;
}
struct Publisher : Op {
  const Two& t;
  CloudiniPublisher p;
  Raw kept[2];
  explicit Publisher(const Two& x) : t(x) {
    p.params["cloudini_resolution"] = rclcpp::Parameter("cloudini_resolution", 0.25);
    p.declareParameters("points");
    for (int i = 0; i < 2; i++) kept[i] = t.k[i].raw;
  }
  bool call(int w) override {
    CloudiniPublisher::TypedEncodeResult r{std::optional<Packed>()};
    {
      Armed a;
      r = p.encodeTyped(kept[w]);
    }
    if (!r.has_value() || !r->has_value()) return false;
    if (!(**r == t.k[w].packed)) vh::fail("result", "the publisher plugin: a different message");
    return true;
  }
  void intact() override {
    for (int i = 0; i < 2; i++)
      if (!(kept[i] == t.k[i].raw)) vh::fail("changed", "the published message changed");
  }
};
struct Subscriber : Op {
  const Two& t;
  CloudiniSubscriber s;
  Raw want[2];
  explicit Subscriber(const Two& x) : t(x) {
    s.declareParameters();
    CloudiniSubscriber fresh;
    for (int i = 0; i < 2; i++) want[i] = ***fresh.decodeTyped(t.k[i].packed);
  }
  bool call(int w) override {
    CloudiniSubscriber::DecodeResult r{std::optional<std::shared_ptr<const Raw>>()};
    {
      Armed a;
      r = s.decodeTyped(t.k[w].packed);
    }
    if (!r.has_value() || !r->has_value() || !**r) return false;
    if (!(***r == want[w])) vh::fail("result", "the subscriber plugin: a different cloud");
    return true;
  }
};
struct Serialize : Op {
  const Two& t;
  Bytes out;
  explicit Serialize(const Two& x) : t(x) {}
  bool call(int w) override {
    EncodingInfo i, j;
    {
      Armed a;
      Cloudini::SerializeCompressedPointCloud2(t.k[w].raw, 0.25f, out);
      i = Cloudini::ReadEncodingInfo(t.k[w].packed);
      j = Cloudini::ConvertToEncodingInfo(t.k[w].raw, 0.25f);
    }
    if (out != t.k[w].wire || i.fields != j.fields || i.fields.size() != t.k[w].raw.fields.size()) vh::fail("result", "SerializeCompressedPointCloud2, ReadEncodingInfo: a different result");
    return true;
  }
};
// nothing is published, or the whole message
struct Converter : Op {
  const Two& t;
  bool compressing;
  std::shared_ptr<rclcpp::Node> node;
  rclcpp::GenericSubscription::SharedPtr sub;
  rclcpp::GenericPublisher::SharedPtr pub;
  std::shared_ptr<rclcpp::SerializedMessage> in[2];
  Bytes want[2];
  Converter(const Two& x, bool c) : t(x), compressing(c) {
    rclcpp::NodeOptions o;
    o.append_parameter_override("compressing", c);
    o.append_parameter_override("resolution", 0.25);
    o.append_parameter_override("topic_input", "/points");
    o.append_parameter_override("topic_output", "/out");
    o.append_parameter_override("log_compression_stats", true);
    auto& g = rclcpp::Graph::get();
    node = shim::component()(o);
    sub = g.subs.at(0), pub = g.pubs.at(0);
    g.subs.clear(), g.pubs.clear();
    for (int i = 0; i < 2; i++) {
      in[i] = smsg(c ? t.k[i].plain : t.k[i].wire);
      if (c) want[i] = t.k[i].wire;
      else cloudini_ros::convertCompressedCloudToPointCloud2(cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(t.k[i].wire.data(), t.k[i].wire.size())), want[i]);
    }
  }
  bool call(int w) override {
    pub->published.clear();
    std::exception_ptr e;
    {
      Armed a;
      try {
        sub->callback(in[w]);
      } catch (...) {
        e = std::current_exception();
      }
    }
    if (pub->published.size() > 1) vh::fail("published", "%zu messages for one", pub->published.size());
    if (pub->published.size() == 1 && pub->published.front() != want[w]) vh::fail("result", "the topic converter published a different message");
    if (e) std::rethrow_exception(e);
    return pub->published.size() == 1;
  }
};
// the application gets a whole cloud or none; clouds that it holds, and their release, need no memory
struct Pcl : Op {
  const Two& t;
  int hold;
  std::shared_ptr<rclcpp::Node> node = std::make_shared<rclcpp::Node>("n");
  std::vector<std::pair<pcl::PCLPointCloud2::Ptr, int>> held;
  pcl::PCLPointCloud2::Ptr last;
  std::unique_ptr<cloudini_ros::CloudiniSubscriberPCL> s;
  rclcpp::GenericSubscription::SharedPtr sub;
  std::shared_ptr<rclcpp::SerializedMessage> in[2];
  Pcl(const Two& x, int h) : t(x), hold(h) {
    s = std::make_unique<cloudini_ros::CloudiniSubscriberPCL>(node.get(), "/points/compressed", [this](const pcl::PCLPointCloud2::Ptr& p) { last = p; });
    sub = rclcpp::Graph::get().subs.back();
    rclcpp::Graph::get().subs.clear();
    held.reserve(64);
    for (int i = 0; i < 2; i++) in[i] = smsg(t.k[i].wire);
    for (int i = 0; i < hold; i++) {
      sub->callback(in[i % 2]);
      held.push_back({last, i % 2});
    }
    if (hold) held.erase(held.begin() + hold / 2);  // one is in the pool
    last.reset();
  }
  bool call(int w) override {
    {
      Armed a;
      last.reset();  // without memory, too
      if (held.size() > 3) held.erase(held.begin());
      sub->callback(in[w]);
    }
    for (auto& h : held) same_pcl(t.k[h.second].raw, 0.25f, *h.first, "cloud held by the application");
    if (!last) return false;
    same_pcl(t.k[w].raw, 0.25f, *last, "new cloud");
    for (auto& h : held)
      if (h.first.get() == last.get()) vh::fail("shared", "the same cloud was handed out twice");
    held.push_back({last, w});
    return true;
  }
  void intact() override {
    for (auto& h : held) same_pcl(t.k[h.second].raw, 0.25f, *h.first, "cloud held by the application");
  }
};
// everything is released while there is no memory at all
struct Release : Op {
  const Two& t;
  int n;
  explicit Release(const Two& x, int k) : t(x), n(k) {}
  bool call(int) override {
    const long first = g_first, last = g_last;
    {
      Pcl p(t, n);
      for (auto& h : p.held) same_pcl(t.k[h.second].raw, 0.25f, *h.first, "cloud held by the application");
      g_count = 0, g_first = 0, g_last = 1L << 60;
      Armed a;
      if (n % 2) p.s.reset();
      p.held.clear();
      p.last.reset();
    }
    g_first = first, g_last = last;
    return true;
  }
};

int main(int argc, char** argv) {
  vh::init(argc, argv);
  const bool T = vh::thorough();
  pcl::PCLPointCloud2 dummy;
  for (int lay = 0; lay < 5; lay++)
    for (int n : {0, 1, 17, 300}) {
      if (!T && (lay + n) % 2 && n) continue;
      auto two = std::make_shared<Two>();
      bool made = false;
      const std::string id = vh::fmt("%d/%d", lay, n);
      auto go = [&](const std::string& name, const oom::Make& m, bool pairs = false) {
        vh::run_case_l([&] { return name + "/" + id; }, [&] {
          if (!made) {
            two->k[0] = make_input(lay, n, 0.25f);
            two->k[1] = make_input(lay + 1, n / 2 + 1, 0.25f);
            made = true;
          }
          oom::explore(name + id, m, pairs);
        });
      };
      go("publisher", [&] { return std::make_unique<Publisher>(*two); }, T);
      go("subscriber", [&] { return std::make_unique<Subscriber>(*two); }, T);
      go("serialize", [&] { return std::make_unique<Serialize>(*two); }, T);
      for (bool c : {false, true}) go(vh::fmt("converter%d", c), [&, c] { return std::make_unique<Converter>(*two, c); }, T);
      for (int hold = 0; hold < 7; hold += 2) go(vh::fmt("pcl%d", hold), [&, hold] { return std::make_unique<Pcl>(*two, hold); }, T);
      for (int k = 1; k < 8; k++)
        vh::run_case_l([&] { return vh::fmt("release%d/", k) + id; }, [&] {
          two->k[0] = make_input(lay, n, 0.25f);
          two->k[1] = make_input(lay + 1, n / 2 + 1, 0.25f);
          made = true;
          oom::t_main = 1;
          Release r(*two, k);
          r.call(0);
          oom::t_main = 0;
          oom::g_first = -1, oom::g_last = -1;
          vh::state(uint64_t(lay * 1000 + n) * 8 + k);
          vh::transition();
          vh::validated();
        });
    }
  return vh::finish();
}
