// C20 for the ROS 2 package, the PCL functions and (BAGS) the bag converter: objects that are not shared, used from
// several threads at the same time.
#include "c20ops.hpp"
#ifdef BAGS
#include "bag.hpp"
#include "mcap_converter.hpp"
#else
#include <sstream>

#include "cloudini_lib/pcl_conversion.hpp"
#include "cloudini_plugin/cloudini_publisher_plugin.hpp"
#include "cloudini_plugin/cloudini_subscriber_plugin.hpp"
#include "cloudini_ros/cloudini_subscriber_pcl.hpp"
#include "cloudini_ros/conversion_utils.hpp"
#include "rclcpp_components/register_node_macro.hpp"
#include "ros.hpp"
#endif
using namespace c20;
using c20::Bytes;

#ifdef BAGS
static std::vector<Op> make_ops(int k, const bag::Scratch& dir) {
  using namespace bag;
  std::vector<Op> ops;
  static const fs::path root = dir.dir;
  for (bool enc : {true, false})
    for (bool viz : {false, true}) {
      if (!enc && viz) continue;
      const fs::path in = root / vh::fmt("in%d%d%d", k, enc, viz), out = root / vh::fmt("out%d%d%d", k, enc, viz);
      spit(in, to_file(make_bag({enc ? kCloud : kCompressed, kText}, {0, 1, 0}, k)));
      ops.push_back({vh::fmt("%s%s", enc ? "encode" : "decode", viz ? "/viz" : ""), [=] {
                       McapConverter c;
                       c.addProfile(vh::fmt("xyz:0.0%d;intensity:remove", k));
                       c.open(in);
                       if (enc) c.encodePointClouds(out, 0.01f, Cloudini::CompressionOption::NONE, viz);
                       else c.decodePointClouds(out, Cloudini::CompressionOption::NONE);
                       Bytes b = slurp(out);
                       for (auto& [n, r] : c.getProfile()) b.insert(b.end(), n.begin(), n.end()), b.push_back(uint8_t(r * 1000));
                       return b;
                     }});
    }
  return ops;
}
#else
using namespace rosx;
static std::shared_ptr<rclcpp::SerializedMessage> smsg(const Bytes& b) {
  auto m = std::make_shared<rclcpp::SerializedMessage>(b.size());
  auto& r = m->get_rcl_serialized_message();
  memcpy(r.buffer, b.data(), b.size());
  r.buffer_length = b.size();
  return m;
}
struct Converter {
  std::shared_ptr<rclcpp::Node> node;
  rclcpp::GenericSubscription::SharedPtr sub;
  rclcpp::GenericPublisher::SharedPtr pub;
  explicit Converter(bool compressing) {
    rclcpp::NodeOptions o;
    o.append_parameter_override("compressing", compressing);
    o.append_parameter_override("resolution", 0.25);
    o.append_parameter_override("topic_input", std::string("/in"));
    o.append_parameter_override("topic_output", std::string("/out"));
    o.append_parameter_override("log_compression_stats", true);
    auto& g = rclcpp::Graph::get();
    node = shim::component()(o);
    sub = g.subs.back(), pub = g.pubs.back();
    g.subs.clear(), g.pubs.clear();
  }
};
static std::vector<Op> make_ops(int k) {
  std::vector<Op> ops;
  uint32_t step;
  auto f = layout({0, 0, 0, 7, 4}, 0, step, 1.f);
  const uint32_t n = 3 + k;
  const Raw m = raw_msg(1, n, f, step, make_cloud(n, f, step, 1), k);
  auto pub = std::make_shared<cloudini_point_cloud_transport::CloudiniPublisher>();
  pub->params["cloudini_resolution"] = rclcpp::Parameter("cloudini_resolution", 0.25);
  pub->declareParameters("points");
  const Packed p = **pub->encodeTyped(m);
  auto bytes = [](const Packed& q) { return cdr::write(to_cdr(q)); };
  const Bytes plain = cdr::write(to_cdr(m)), packed = bytes(p);
  ops.push_back({"publish", [=] { return bytes(**pub->encodeTyped(m)); }});
  auto sub = std::make_shared<cloudini_point_cloud_transport::CloudiniSubscriber>();
  sub->declareParameters();
  ops.push_back({"receive", [=] { return cdr::write(to_cdr(***sub->decodeTyped(p))); }});
  ops.push_back({"serialize", [=] {
                   std::vector<uint8_t> out;
                   Cloudini::SerializeCompressedPointCloud2(m, 0.25f, out);
                   auto i = Cloudini::ReadEncodingInfo(p);
                   out.push_back(uint8_t(i.fields.size()));
                   return out;
                 }});
  for (bool compressing : {true, false}) {
    auto c = std::make_shared<Converter>(compressing);
    ops.push_back({compressing ? "convert" : "restore", [=] {
                     c->pub->published.clear();
                     c->sub->callback(smsg(compressing ? plain : packed));
                     return c->pub->published.size() == 1 ? c->pub->published[0] : Bytes();
                   }});
  }
  struct Pcl {
    std::shared_ptr<rclcpp::Node> node = std::make_shared<rclcpp::Node>("n");
    Bytes last;
    std::unique_ptr<cloudini_ros::CloudiniSubscriberPCL> s;
    rclcpp::GenericSubscription::SharedPtr sub;
  };
  auto q = std::make_shared<Pcl>();
  q->s = std::make_unique<cloudini_ros::CloudiniSubscriberPCL>(q->node, "/points/compressed", [w = q.get()](const pcl::PCLPointCloud2::Ptr& c) { w->last.assign(c->data.begin(), c->data.end()); });
  q->sub = rclcpp::Graph::get().subs.back();
  rclcpp::Graph::get().subs.clear();
  ops.push_back({"pcl-subscriber", [=] {
                   q->last.clear();
                   q->sub->callback(smsg(packed));
                   return q->last;
                 }});
  ops.push_back({"pcl-functions", [=] {
                   pcl::PCLPointCloud2 c, d;
                   Cloudini::ConstBufferView z(p.compressed_data.data(), p.compressed_data.size());
                   Cloudini::PCLPointCloudDecode(z, c);
                   std::vector<uint8_t> out;
                   Cloudini::PCLPointCloudEncode(c, out, 0.25);
                   Cloudini::PCLPointCloudDecode(Cloudini::ConstBufferView(out.data(), out.size()), d);
                   out.insert(out.end(), d.data.begin(), d.data.end());
                   std::istringstream s("VERSION .7\nFIELDS x y q\nSIZE 4 4 8\nTYPE F F U\nCOUNT 1 1 1\nWIDTH 3\nHEIGHT 1\nPOINTS 3\nDATA ascii\n");
                   for (auto& [name, type] : Cloudini::ReadEncodingInfoFromPCD(s)) out.push_back(uint8_t(type));
                   return out;
                 }});
  return ops;
}
#endif

int main(int argc, char** argv) {
  vh::init(argc, argv);
#ifdef BAGS
  bag::Scratch dir;
  auto A = make_ops(1, dir), B = make_ops(2, dir), C = make_ops(3, dir);
#else
  auto A = make_ops(1), B = make_ops(2), C = make_ops(3);
#endif
  const bool T = vh::thorough();
  // operations that have a worker thread of their own
  auto thr = [](const Op& o) { return o.name == "publish" || o.name == "serialize" || o.name == "convert" || o.name == "pcl-functions" || o.name.rfind("encode", 0) == 0; };
  for (size_t i = 0; i < A.size(); i++)
    for (size_t j = i; j < B.size(); j++) together({&A[i], &B[j]}, thr(A[i]) && thr(B[j]) ? T ? 2 : 1 : T ? -1 : 2);
  for (size_t i = 0; i < A.size(); i++) {
    const size_t j = (i + 1) % A.size(), k = (i + 2) % A.size();
    const int w = thr(A[i]) + thr(B[j]) + thr(C[k]);
    if (!thr(A[i])) together({&A[i], &B[i], &C[i]}, T ? 2 : 1);
    if (w < 2) together({&A[i], &B[j], &C[k]}, w ? 0 : T ? 2 : 1);
  }
  return vh::finish();
}
