// C22: the ROS 2 package (transport plugins, conversion helpers, topic converter, PCL subscriber) delivers the cloud that was
// published. The real sources run against stand-ins for rclcpp, point_cloud_transport and the generated messages.
#include "cloudini_plugin/cloudini_publisher_plugin.hpp"
#include "cloudini_plugin/cloudini_subscriber_plugin.hpp"
#include "cloudini_ros/cloudini_subscriber_pcl.hpp"
#include "cloudini_ros/conversion_utils.hpp"
#include "rclcpp_components/register_node_macro.hpp"
#include "ros.hpp"
using namespace rosx;
using cloudini_point_cloud_transport::CloudiniPublisher;
using cloudini_point_cloud_transport::CloudiniSubscriber;

static std::shared_ptr<rclcpp::SerializedMessage> smsg(const Bytes& b) {
  auto m = std::make_shared<rclcpp::SerializedMessage>(b.size());
  auto& r = m->get_rcl_serialized_message();
  if (!b.empty()) memcpy(r.buffer, b.data(), b.size());
  r.buffer_length = b.size();
  return m;
}
struct Converter {
  std::shared_ptr<rclcpp::Node> node;
  rclcpp::GenericSubscription::SharedPtr sub;
  rclcpp::GenericPublisher::SharedPtr pub;
  Converter(bool compressing, double res, const std::string& in = "/points", const std::string& out = "/out", bool stats = true) {
    rclcpp::NodeOptions o;
    o.append_parameter_override("compressing", compressing);
    o.append_parameter_override("resolution", res);
    o.append_parameter_override("topic_input", in);
    o.append_parameter_override("topic_output", out);
    o.append_parameter_override("log_compression_stats", stats);
    auto& g = rclcpp::Graph::get();
    g.subs.clear();
    g.pubs.clear();
    node = shim::component()(o);
    if (g.subs.size() != 1 || g.pubs.size() != 1) vh::fail("graph", "the converter has %zu subscriptions and %zu publishers", g.subs.size(), g.pubs.size());
    sub = g.subs[0];
    pub = g.pubs[0];
    g.subs.clear();
    g.pubs.clear();
  }
  Bytes run(const Bytes& in) {
    auto m = smsg(in);
    sub->callback(m);
    vh::transition();
    if (m->size() != in.size() || memcmp(m->get_rcl_serialized_message().buffer, in.data(), in.size())) vh::fail("input", "the topic converter changed the message that it received");
    if (pub->published.size() != 1) vh::fail("published", "the topic converter published %zu messages", pub->published.size());
    Bytes b = pub->published.front();
    pub->published.clear();
    return b;
  }
};
struct PclSub {
  std::shared_ptr<rclcpp::Node> node = std::make_shared<rclcpp::Node>("n");
  pcl::PCLPointCloud2::Ptr last;
  std::unique_ptr<cloudini_ros::CloudiniSubscriberPCL> s;
  rclcpp::GenericSubscription::SharedPtr sub;
  explicit PclSub(bool raw_node) {
    auto cb = [this](const pcl::PCLPointCloud2::Ptr& p) { last = p; };
    if (raw_node) s = std::make_unique<cloudini_ros::CloudiniSubscriberPCL>(node.get(), "/points/compressed", cb);
    else s = std::make_unique<cloudini_ros::CloudiniSubscriberPCL>(node, "/points/compressed", cb);
    sub = rclcpp::Graph::get().subs.back();
    rclcpp::Graph::get().subs.clear();
    if (s->getTopicName() != "/points/compressed" || sub->type != "point_cloud_interfaces/msg/CompressedPointCloud2" || s->getSubscription().get() != sub.get()) vh::fail("subscription", "wrong topic or type");
  }
  ~PclSub() { last.reset(); }
  pcl::PCLPointCloud2::Ptr run(const Bytes& b) {
    last.reset();
    sub->callback(smsg(b));
    vh::transition();
    return last;
  }
};
struct World {
  double res;
  CloudiniPublisher pub;
  CloudiniSubscriber sub;
  Converter compress, restore;
  PclSub pcl{false};
  std::vector<std::pair<std::shared_ptr<const Raw>, Raw>> held;  // delivered messages and what they were
  void keep() const {
    for (auto& h : held)
      if (!(*h.first == h.second)) vh::fail("history", "a message changed after it had been delivered");
  }
  explicit World(double r, int how) : res(r), compress(true, r), restore(false, r, "/points/compressed", "/points2") {
    // the resolution is configured before, or changed afterwards
    if (how == 0) pub.params["cloudini_resolution"] = rclcpp::Parameter("cloudini_resolution", r);
    pub.declareParameters("points");
    sub.declareParameters();
    if (how == 1) {
      auto x = pub.on_change({rclcpp::Parameter("other", true), rclcpp::Parameter("points.cloudini.cloudini_resolution", r)});
      if (!x.successful) vh::fail("parameter", "changing the resolution is refused");
    }
    if (pub.getTransportName() != sub.getTransportName() || pub.getDataType() != sub.getDataType() || sub.getDataType() != "point_cloud_interfaces/msg/CompressedPointCloud2") vh::fail("plugin", "publisher and subscriber disagree on name or type");
  }
};
static cdr::Msg parse(const Bytes& b, bool compressed, const char* what) {
  try {
    return cdr::read(b, compressed);
  } catch (const std::exception& e) {
    vh::fail("malformed", "%s: malformed message: %s", what, e.what());
  }
}
static void receive(World& w, const Raw& m, const EncodingInfo& g, const Packed& p, const Bytes& wire, const char* what) {
  // by the plugin
  auto d = w.sub.decodeTyped(p);
  vh::transition();
  w.keep();
  if (!d.has_value() || !d->has_value() || !**d) vh::fail("subscriber", "%s: the subscriber plugin delivers nothing", what);
  const Raw& r = ***d;
  same_envelope(to_cdr(m), to_cdr(r), vh::fmt("%s, received by the plugin", what).c_str());
  same_points(g, m.data, r.data, vh::fmt("%s, received by the plugin", what).c_str());
  if (w.held.size() == 3) w.held.erase(w.held.begin());
  w.held.push_back({**d, r});
  // by the topic converter
  auto c = parse(w.restore.run(wire), false, "restored");
  same_envelope(to_cdr(m), c, vh::fmt("%s, restored by the converter", what).c_str());
  same_points(g, m.data, c.data, vh::fmt("%s, restored by the converter", what).c_str());
  // by the PCL subscriber
  {
    auto q = w.pcl.run(wire);
    if (!q) vh::fail("pcl", "%s: the PCL subscriber delivers nothing", what);
    same_pcl(m, float(w.res), *q, vh::fmt("%s, received by the PCL subscriber", what).c_str());
  }
  vh::validated();
}
static void deliver(World& w, const Raw& m, bool big) {
  const EncodingInfo g = guarantee(m, float(w.res));
  // publisher plugin
  auto e = w.pub.encodeTyped(m);
  vh::transition();
  if (!e.has_value() || !e->has_value()) vh::fail("publisher", "the publisher plugin produces nothing");
  const Packed p = **e;
  same_envelope(to_cdr(m), to_cdr(p), "published by the plugin");
  if (p.format != "cloudini") vh::fail("format", "the format of a published message is '%s'", p.format.c_str());
  EncodingInfo i;
  try {
    i = Cloudini::ReadEncodingInfo(p);
  } catch (const std::exception& x) {
    vh::fail("description", "ReadEncodingInfo refuses a message of the publisher plugin: %s", x.what());
  }
  if (i.width != m.width || i.height != m.height || i.point_step != m.point_step || i.fields.size() != m.fields.size()) vh::fail("description", "ReadEncodingInfo: wrong description of a published message");
  for (size_t k = 0; k < i.fields.size(); k++)
    if (i.fields[k].name != g.fields[k].name || i.fields[k].offset != g.fields[k].offset || i.fields[k].type != g.fields[k].type || i.fields[k].resolution != g.fields[k].resolution) vh::fail("description", "ReadEncodingInfo: wrong description of field %zu", k);
  vh::state_bytes(p.compressed_data.data(), p.compressed_data.size());
  receive(w, m, g, p, cdr::write(to_cdr(p, big)), "published by the plugin");
  // helper for serialized messages
  std::vector<uint8_t> ser{1, 2, 3};
  Cloudini::SerializeCompressedPointCloud2(m, float(w.res), ser);
  vh::transition();
  auto s = parse(ser, true, "SerializeCompressedPointCloud2");
  same_envelope(to_cdr(m), s, "SerializeCompressedPointCloud2");
  if (*s.format != "cloudini") vh::fail("format", "SerializeCompressedPointCloud2: format '%s'", s.format->c_str());
  receive(w, m, g, to_packed(s), ser, "serialized by the helper");
  // topic converter
  Bytes z = w.compress.run(cdr::write(to_cdr(m, big)));
  auto zc = parse(z, true, "converted");
  same_envelope(to_cdr(m), zc, "compressed by the converter");
  if (zc.big != big) vh::fail("endianness", "the topic converter changed the byte order");
  receive(w, m, g, to_packed(zc), z, "compressed by the converter");
  // helper objects agree with the message
  auto rp = Cloudini::ConvertToRosPointCloud2(m);
  if (rp.ros_header.stamp_sec != m.header.stamp.sec || rp.ros_header.stamp_nsec != m.header.stamp.nanosec || rp.ros_header.frame_id != m.header.frame_id || rp.width != m.width || rp.height != m.height || rp.point_step != m.point_step ||
      rp.row_step != m.row_step || rp.is_dense != m.is_dense || rp.data.data() != m.data.data() || rp.data.size() != m.data.size() || rp.fields.size() != m.fields.size())
    vh::fail("helper", "ConvertToRosPointCloud2: a member is wrong");
  auto ei = Cloudini::ConvertToEncodingInfo(m, float(w.res));
  if (ei.width != m.width || ei.height != m.height || ei.point_step != m.point_step || ei.fields != g.fields) vh::fail("helper", "ConvertToEncodingInfo: wrong description");
  vh::validated();
}
static const int kRos[] = {0, 3, 4, 5, 6, 7, 8, 9};  // kinds that ROS knows (no 64-bit integers)

int main(int argc, char** argv) {
  vh::init(argc, argv);
  const bool T = vh::thorough();
  static const std::pair<uint32_t, uint32_t> dims[] = {{1, 0}, {0, 0}, {0, 3}, {1, 1}, {1, 3}, {3, 2}, {1, 40}, {4, 1}};
  // (1) every message through every sender and every receiver, the same objects all along
  for (int how = 0; how < 2; how++)
    for (double res : {0.001, 0.25, 0.0001, 1.0, 300.0})
      for (int first = 0; first < 8; first++)
        vh::run_case_l([&] { return vh::fmt("deliver/%d/%g/%d", how, res, first); }, [&] {
          World w(res, how);
          int tag = 0;
          all_sequences(8, 0, T ? 3 : 2, [&](const std::vector<int>& t) {
            std::vector<int> k{kRos[first]};
            for (int q : t) k.push_back(kRos[q]);
            for (int packing = 0; packing < (t.size() < 2 || T ? 3 : 1); packing++)
              for (auto [h, wd] : dims) {
                if (t.size() == 2 && !T && (wd != 3 || res >= 1) && wd != 0) continue;
                uint32_t step;
                auto f = layout(k, packing, step, 1.f);
                deliver(w, raw_msg(h, wd, f, step, make_cloud(size_t(h) * wd, f, step, tag % 3), tag), tag % 2);
                tag++;
              }
          });
        });
  for (int n = 3; n <= 6; n++)
    for (double res : {0.001, 0.25})
      vh::run_case_l([&] { return vh::fmt("deliver/lead%d/%g", n, res); }, [&] {
        World w(res, 0);
        int tag = 0;
        for (int last : kRos)
          for (int pos = 0; pos < n; pos++)
            for (auto [h, wd] : dims) {
              std::vector<int> k(n, 0);
              k[pos] = last;
              uint32_t step;
              auto f = layout(k, pos % 3, step, 1.f);
              deliver(w, raw_msg(h, wd, f, step, make_cloud(size_t(h) * wd, f, step, pos % 3), tag), tag % 2);
              tag++;
            }
      });
  vh::run_case("deliver/chunks", [&] {
    World w(0.01, 0);
    for (uint32_t n : {32767u, 32768u, 32769u, 70000u}) {
      uint32_t step;
      auto f = layout({0, 0, 0, 7, 3}, 0, step, 1.f);
      for (int tall = 0; tall < 2; tall++) {
        deliver(w, raw_msg(tall ? n : 1, tall ? 1 : n, f, step, make_cloud(n, f, step, int(n % 3)), n % 5), n % 2);
        vh::beat();
      }
    }
  });
  // (1b) many fields, long names, far offsets
  for (int nf : T ? std::vector<int>{9, 10, 15, 16, 17, 24, 31, 32, 33, 47, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 513} : std::vector<int>{9, 16, 17, 32, 33, 64, 65, 128, 200, 257})
    for (int rot = 0; rot < 8; rot++)
      vh::run_case_l([&] { return vh::fmt("deliver/wide/%d/%d", nf, rot); }, [&] {
        World w(rot % 2 ? 0.25 : 0.001, rot / 2 % 2);
        const std::vector<int> ros(kRos, kRos + 8);
        for (int packing = 0; packing < 3; packing++)
          for (auto [h, wd] : dims) {
            uint32_t step;
            auto f = layout(wide_kinds(nf, rot, packing == 2 ? std::vector<int>{ros[rot]} : ros), packing, step, 1.f);
            if (packing == 1)
              for (size_t i = 0; i < f.size(); i += 7) f[i].name += std::string(i % 300, 'L');
            Raw m = raw_msg(h, wd, f, step, make_cloud(size_t(h) * wd, f, step, packing), packing + int(h));
            if (rot == 7) m.header.frame_id = std::string(nf * 5, 'F');
            deliver(w, m, rot % 2);
            vh::beat();
          }
      });
  for (uint32_t gap : {127u, 128u, 255u, 256u, 4096u, 32767u, 32768u, 65535u, 65536u, 100003u})
    vh::run_case_l([&] { return vh::fmt("deliver/far/%u", gap); }, [&] {
      World w(0.25, 0);
      for (int a : kRos)
        for (int b : {0, 3, 7, 9}) {
          uint32_t step;
          auto f = layout({0, 0, 0, a, b}, 0, step, 1.f);
          f[3].offset += gap, f[4].offset += gap, step += gap + a % 4;
          deliver(w, raw_msg(1, 3, f, step, make_cloud(3, f, step, a % 3), a), b % 2);
          vh::beat();
        }
    });
  // (2) the subscriber plugin refuses messages that contradict the stream inside of them
  vh::run_case("mismatch", [&] {
    World w(0.25, 0);
    for (auto& k : std::vector<std::vector<int>>{{0, 0, 0}, {0, 0, 0, 7}, {5, 3}, {8}})
      for (uint32_t n : {1u, 4u}) {
        uint32_t step;
        auto f = layout(k, 0, step, 1.f);
        Raw m = raw_msg(n, 2, f, step, make_cloud(n * 2, f, step, 1));
        const Packed p = **w.pub.encodeTyped(m);
        std::vector<Packed> bad;
        auto add = [&](auto&& change) {
          Packed q = p;
          change(q);
          if (!(q == p)) bad.push_back(q);
        };
        for (uint32_t v : {0u, 1u, 2u, 3u, 5u, 8u, 65536u, 0x80000000u, 0xffffffffu}) {
          add([&](Packed& q) { q.width = v; });
          add([&](Packed& q) { q.height = v; });
          add([&](Packed& q) { q.width = v, q.height = v; });
          add([&](Packed& q) { q.width = m.width * m.height, q.height = 1; });
          add([&](Packed& q) { q.width = m.height, q.height = m.width; });
          add([&](Packed& q) { q.point_step = v; });
          for (size_t i = 0; i < p.fields.size(); i++) {
            add([&](Packed& q) { q.fields[i].offset = v; });
            add([&](Packed& q) { q.fields[i].datatype = uint8_t(v); });
            add([&](Packed& q) { q.fields[i].name = std::string(v % 7, 'q'); });
          }
        }
        add([&](Packed& q) { q.fields.pop_back(); });
        add([&](Packed& q) { q.fields.push_back(q.fields[0]); });
        add([&](Packed& q) { q.fields.clear(); });
        if (p.fields.size() > 1) add([&](Packed& q) { std::swap(q.fields[0], q.fields[1]); });
        for (auto& q : bad) {
          bool ok = true;
          try {
            ok = w.sub.decodeTyped(q).has_value();
          } catch (const std::exception&) {
            ok = false;
          }
          vh::transition();
          if (ok) vh::fail("mismatch", "the subscriber plugin accepts a message whose members contradict its data");
          vh::validated();
        }
        // the plugin still works
        deliver(w, m, false);
      }
  });
  for (int nf : {9, 16, 17, 33, 65, 129, 200, 257})
    vh::run_case_l([&] { return vh::fmt("mismatch/wide/%d", nf); }, [&] {
      World w(0.25, 0);
      uint32_t step;
      auto f = layout(wide_kinds(nf, nf % 8, std::vector<int>(kRos, kRos + 8)), 1, step, 1.f);
      Raw m = raw_msg(1, 3, f, step, make_cloud(3, f, step, 1));
      const Packed p = **w.pub.encodeTyped(m);
      auto refused = [&](const Packed& q, const char* what) {
        bool ok = true;
        try {
          ok = w.sub.decodeTyped(q).has_value();
        } catch (const std::exception&) {
          ok = false;
        }
        vh::transition();
        if (ok) vh::fail("mismatch", "the subscriber plugin accepts a message of %d fields with a wrong %s", nf, what);
        vh::validated();
      };
      for (int i = 0; i < nf; i++) {
        auto change = [&](const char* what, auto&& c) {
          Packed q = p;
          c(q.fields[i]);
          refused(q, vh::fmt("%s of field %d", what, i).c_str());
        };
        change("name", [](auto& x) { x.name += "_"; });
        change("name", [](auto& x) { x.name.back() ^= 1; });
        for (uint32_t d : {1u, 256u, 65536u, 0x1000000u}) change("offset", [&](auto& x) { x.offset += d; });
        for (uint8_t d : {1, 16, 128}) change("type", [&](auto& x) { x.datatype ^= d; });
        Packed q = p;
        q.fields.erase(q.fields.begin() + i);
        refused(q, "number of fields");
      }
      deliver(w, m, false);
    });
  // (3) damaged messages: exceptions at worst, and the next message is delivered
  for (int part = 0; part < 8; part++)
    vh::run_case_l([&] { return vh::fmt("damaged/%d", part); }, [&] {
      World w(0.25, 0);
      uint32_t step;
      auto f = layout({0, 0, 0, 7, 5}, 0, step, 1.f);
      Raw m = raw_msg(1, 6, f, step, make_cloud(6, f, step, 1));
      const Packed p = **w.pub.encodeTyped(m);
      const Bytes wire = cdr::write(to_cdr(p, part % 2)), plain = cdr::write(to_cdr(m, part % 2));
      auto guard = [&](auto&& fn) {
        bool ok = true;
        try {
          fn();
        } catch (const vh::Fail&) {
          throw;
        } catch (const std::exception&) {
          ok = false;
        }
        vh::transition();
        vh::outcome(ok ? "accepted" : "refused");
        vh::validated();
      };
      auto feed = [&](const Bytes& b) {
        guard([&] { w.restore.sub->callback(smsg(b)); });
        w.restore.pub->published.clear();
        // the PCL subscriber reports errors itself
        w.pcl.run(b);
      };
      auto feedc = [&](const Bytes& b) {
        guard([&] { w.compress.sub->callback(smsg(b)); });
        w.compress.pub->published.clear();
      };
      auto feedp = [&](const Bytes& b) {
        Packed q = p;
        q.compressed_data = b;
        guard([&] { w.sub.decodeTyped(q); });
      };
      for (size_t n = part; n < wire.size(); n += 8) feed(Bytes(wire.begin(), wire.begin() + n));
      for (size_t n = part; n < plain.size(); n += 8) feedc(Bytes(plain.begin(), plain.begin() + n));
      for (size_t n = part; n < p.compressed_data.size(); n += 8) feedp(Bytes(p.compressed_data.begin(), p.compressed_data.begin() + n));
      for (int v : {0x00, 0x01, 0x7f, 0x80, 0xff}) {
        for (size_t i = part; i < wire.size(); i += 8) {
          Bytes b = wire;
          b[i] = uint8_t(v);
          feed(b);
        }
        for (size_t i = part; i < p.compressed_data.size(); i += 8) {
          Bytes b = p.compressed_data;
          b[i] = uint8_t(v);
          feedp(b);
        }
        if (v != 0xff && v != 0x7f)  // not dimensions of gigabytes
          for (size_t i = part; i < plain.size(); i += 8) {
            Bytes b = plain;
            b[i] = uint8_t(v);
            feedc(b);
          }
      }
      deliver(w, m, false);
    });
  // (4) the topic converter: names, types, quality of service, nothing without subscribers
  vh::run_case("converter/topics", [&] {
    for (bool compressing : {false, true})
      for (std::string out : {"", "/x"})
        for (std::string in : {"/points", "/a/b"}) {
          Converter c(compressing, 0.01, in, out);
          const std::string plain = "sensor_msgs/msg/PointCloud2", packed = "point_cloud_interfaces/msg/CompressedPointCloud2";
          if (c.sub->topic != in || c.pub->topic != (out.empty() ? in + (compressing ? "/compressed" : "/decompressed") : out)) vh::fail("topics", "wrong topic: %s", c.pub->topic.c_str());
          if (c.sub->type != (compressing ? plain : packed) || c.pub->type != (compressing ? packed : plain)) vh::fail("types", "wrong type");
          uint32_t step;
          auto f = layout({0, 0, 0}, 0, step, 1.f);
          Raw m = raw_msg(1, 2, f, step, make_cloud(2, f, step, 1));
          c.pub->subscribers = 0;
          c.sub->callback(smsg(cdr::write(to_cdr(m))));
          if (!c.pub->published.empty()) vh::fail("published", "published without subscribers");
          vh::transition();
          vh::validated();
        }
    bool threw = false;
    try {
      Converter c(true, 0.01, "", "/x");
    } catch (const std::runtime_error&) {
      threw = true;
    }
    if (!threw) vh::fail("topics", "an empty input topic is accepted");
  });
  vh::run_case("converter/qos", [&] {
    all_sequences(4, 0, T ? 6 : 4, [&](const std::vector<int>& d) {
      auto& g = rclcpp::Graph::get();
      g.publishers.clear();
      bool all_rel = true, all_tl = true;
      for (int q : d) {
        rclcpp::QoS o(1 + q);
        if (q & 1) o.best_effort(), all_rel = false;
        if (q & 2) o.transient_local();
        else all_tl = false;
        g.publishers["/points"].emplace_back(o);
      }
      Converter c(true, 0.01);
      auto s = c.sub->qos.get_rmw_qos_profile();
      vh::transition();
      // what is requested must be offered by all; and is requested then
      if (!d.empty()) {
        if ((s.reliability == RMW_QOS_POLICY_RELIABILITY_RELIABLE) != all_rel) vh::fail("qos", "reliability does not match the %zu publishers", d.size());
        if ((s.durability == RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL) != all_tl) vh::fail("qos", "durability does not match the %zu publishers", d.size());
      } else if (s.durability == RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL)
        vh::fail("qos", "transient local is requested although nobody offers it");
      vh::validated();
      g.publishers.clear();
    });
  });
  return vh::finish();
}
