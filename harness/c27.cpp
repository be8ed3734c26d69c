// C27: running out of memory. Every allocation of every operation fails in turn: an error, no leak, no damage, and the
// same objects work when there is memory again.
#include <pcl/console/print.h>
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>

#include <fstream>
#include <sstream>

#include "cdr.hpp"
#include "cloudini_lib/pcl_conversion.hpp"
#include "cloudini_lib/ros_msg_utils.hpp"
#include "cloudini_lib/wasm_functions.h"
#include "oom.hpp"
using namespace cl;
using oom::Armed;
using oom::Op;
using Ros = cloudini_ros::RosPointCloud2;

static void same(const Bytes& a, const Bytes& b, const char* what) {
  if (a != b) vh::fail("result", "%s: the result differs from that of a call which had enough memory", what);
}
// two inputs of an operation
struct Case {
  EncodingInfo info;
  Bytes cloud, enc, plain, packed;  // points, stream, PointCloud2, CompressedPointCloud2
};
static Case make_case(int lay, int n, int version, EncodingOptions e, CompressionOption c, bool threads) {
  static const std::vector<std::vector<int>> lays{{0, 0, 0, 7}, {0, 0, 0, 0, 2}, {5, 9, 3}, {0, 0, 0, 4, 6, 8, 3, 1}, {11, 10}};
  Case k;
  uint32_t step;
  auto f = layout(lays[lay % 5], lay % 3, step, 1.f);
  f[0].name += " a long name of a field, which needs memory of its own";
  k.cloud = make_cloud(n, f, step, lay % 3);
  k.info = make_info({version, e, c, threads}, f, step, n);
  k.enc = enc_fresh(k.info, k.cloud);
  auto m = cdr::from_layout(lay % 2, "a frame whose name does not fit into the string", 1, n, f, step, k.cloud);
  k.plain = cdr::write(m);
  m.data = k.enc, m.format = "cloudini";
  k.packed = cdr::write(m);
  return k;
}
struct Two {
  Case k[2];
};
// ---- codec
struct Encoder : Op {
  const Two& t;
  int how;
  std::unique_ptr<PointcloudEncoder> e;
  Bytes out;
  Encoder(const Two& x, int h) : t(x), how(h) {}
  bool call(int w) override {
    const Case& k = t.k[how == 0 ? w : 0];
    if (how == 0) {  // a new one for every call
      Armed a;
      PointcloudEncoder enc(k.info);
      enc.encode(ConstBufferView(k.cloud.data(), k.cloud.size()), out);
    } else {
      if (!e) {
        Armed a;
        e = std::make_unique<PointcloudEncoder>(k.info);
      }
      Armed a;
      e->encode(ConstBufferView(k.cloud.data(), k.cloud.size()), out);
    }
    same(out, k.enc, "encode");
    return true;
  }
};
struct Decoder : Op {
  const Two& t;
  std::unique_ptr<PointcloudDecoder> d = std::make_unique<PointcloudDecoder>();
  Bytes want[2];
  explicit Decoder(const Two& x) : t(x) {
    for (int i = 0; i < 2; i++) want[i] = dec_full(t.k[i].enc).data;
  }
  bool call(int w) override {
    const Case& k = t.k[w];
    Bytes out(k.cloud.size(), 0xCD);
    ConstBufferView v(k.enc.data(), k.enc.size());
    {
      Armed a;
      const EncodingInfo info = DecodeHeader(v);
      d->decode(info, v, BufferView(out.data(), out.size()));
    }
    same(out, want[w], "decode");
    return true;
  }
};
struct Header : Op {
  const Two& t;
  Bytes want[2];
  EncodingInfo kept;
  explicit Header(const Two& x) : t(x) {
    for (int i = 0; i < 2; i++) EncodeHeader(t.k[i].info, want[i], HeaderEncoding::YAML);
  }
  bool call(int w) override {
    const Case& k = t.k[w];
    Bytes b, yaml;
    EncodingInfo i, j;
    std::string s;
    {
      Armed a;
      EncodeHeader(k.info, b, HeaderEncoding::BINARY);
      EncodeHeader(k.info, yaml, HeaderEncoding::YAML);
      ConstBufferView v(b.data(), b.size());
      i = DecodeHeader(v);
      s = EncodingInfoToYAML(i);
      j = EncodingInfoFromYAML(s);
      kept = i;
    }
    same(yaml, want[w], "EncodeHeader");
    if (i.fields != k.info.fields || j.fields != k.info.fields || kept.fields != k.info.fields || i.width != k.info.width) vh::fail("result", "header: wrong description");
    return true;
  }
};
// ---- messages
static Ros read(const Bytes& b) { return cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(b.data(), b.size())); }
struct Compress : Op {
  const Two& t;
  Bytes out, want[2];
  bool viz;
  Compress(const Two& x, bool v) : t(x), viz(v) {
    for (int i = 0; i < 2; i++) std::thread([&] { run(i, want[i]); }).join();
  }
  void run(int w, Bytes& o) {
    auto m = read(t.k[w].plain);
    cloudini_ros::applyResolutionProfile({{"b", 0.5f}, {"a field that does not exist, with a long name", 0.f}}, m.fields, 0.5f);
    for (auto& f : m.fields)
      if (viz && f.type == FT::FLOAT32) f.resolution = 0.5f;
    if (viz) cloudini_ros::applyVizLossyPreprocessing(m);
    auto info = cloudini_ros::toEncodingInfo(m);
    info.use_threads = false;
    cloudini_ros::convertPointCloud2ToCompressedCloud(m, info, o);
  }
  bool call(int w) override {
    {
      Armed a;
      run(w, out);
    }
    same(out, want[w], "convertPointCloud2ToCompressedCloud");
    return true;
  }
};
struct Restore : Op {
  const Two& t;
  Bytes out, want[2];
  explicit Restore(const Two& x) : t(x) {
    for (int i = 0; i < 2; i++) cloudini_ros::convertCompressedCloudToPointCloud2(read(t.k[i].packed), want[i]);
  }
  bool call(int w) override {
    {
      Armed a;
      cloudini_ros::convertCompressedCloudToPointCloud2(read(t.k[w].packed), out);
    }
    same(out, want[w], "convertCompressedCloudToPointCloud2");
    return true;
  }
};
// preprocessing of one cloud that is kept: after a failure it is as it was
static Bytes snapshot(const Ros& m) {
  Bytes b(m.data.data(), m.data.data() + m.data.size());
  for (auto& f : m.fields) {
    b.insert(b.end(), f.name.begin(), f.name.end());
    b.push_back(uint8_t(f.offset)), b.push_back(uint8_t(f.type)), b.push_back(uint8_t(f.resolution.value_or(-1)));
  }
  for (uint32_t v : {m.width, m.height, m.point_step, m.row_step, uint32_t(m.is_dense), m.ros_header.stamp_nsec})
    for (int i = 0; i < 4; i++) b.push_back(uint8_t(v >> 8 * i));
  b.insert(b.end(), m.ros_header.frame_id.begin(), m.ros_header.frame_id.end());
  return b;
}
struct Voxels : Op {
  Bytes clouds[2], want[2];
  Ros m;
  Bytes before;
  Voxels(int n, int spread) {
    for (int i = 0; i < 2; i++) {
      const int c = i ? n / 2 + 1 : n;
      clouds[i].resize(c * 16);
      for (int p = 0; p < c; p++)
        for (int k = 0; k < 4; k++) put<float>(clouds[i], p * 16 + k * 4, float((p * (spread ? 37 : 1) / (k + 1)) * (spread == 2 && p % 3 == 0 ? 1e8f : 1.f)));
      std::thread([&] {
        Ros r = fresh(i);
        cloudini_ros::applyVizLossyPreprocessing(r);
        want[i] = snapshot(r);
      }).join();
    }
  }
  Ros fresh(int w) {
    Ros r;
    r.ros_header.frame_id = "a frame whose name does not fit into the string";
    const char* names[] = {"x", "y", "z", "intensity of the point, with a long name"};
    for (int k = 0; k < 4; k++) r.fields.push_back({names[k], uint32_t(4 * k), FT::FLOAT32, k < 3 ? std::optional<float>(1.f) : std::nullopt});
    r.point_step = 16, r.width = uint32_t(clouds[w].size() / 16), r.row_step = uint32_t(clouds[w].size());
    r.data = ConstBufferView(clouds[w].data(), clouds[w].size());
    return r;
  }
  bool call(int w) override {
    m = fresh(w);
    before = snapshot(m);
    {
      Armed a;
      cloudini_ros::applyVizLossyPreprocessing(m);
    }
    same(snapshot(m), want[w], "applyVizLossyPreprocessing");
    return true;
  }
  void intact() override {
    if (snapshot(m) != before) vh::fail("changed", "applyVizLossyPreprocessing failed, but it changed the cloud");
  }
};
// copies: whatever happens, both clouds can be read, even when the source is gone
struct Copies : Op {
  int how;
  Bytes external = Bytes(100, 3), want[2];
  std::unique_ptr<Ros> src[2], dst;
  static std::unique_ptr<Ros> cloud(int w, const Bytes& external, bool owned) {
    auto r = std::make_unique<Ros>();
    r->ros_header.frame_id = std::string(40 + w, 'f');
    for (int k = 0; k < 3 + w; k++) r->fields.push_back({"a field with quite a long name " + std::to_string(k), uint32_t(4 * k), FT::FLOAT32, 1.f});
    r->point_step = 20, r->width = 5 - w;
    if (owned) {
      r->owned_data = Bytes(100 - 20 * w, uint8_t(w + 1));
      r->data = ConstBufferView(r->owned_data.data(), r->owned_data.size());
    } else
      r->data = ConstBufferView(external.data(), external.size() - 20 * w);
    return r;
  }
  explicit Copies(int h) : how(h) {
    for (int i = 0; i < 2; i++) {
      src[i] = cloud(i, external, (how + i) % 3 != 0);
      want[i] = snapshot(*src[i]);
    }
    if (how / 3 % 2) dst = cloud(1, external, true), dst->ros_header.frame_id = "short";
  }
  bool call(int w) override {
    if (dst) {
      Armed a;
      *dst = *src[w];
    } else {
      Armed a;
      dst = std::make_unique<Ros>(*src[w]);
    }
    same(snapshot(*dst), want[w], "copy");
    if (how >= 6) {  // through temporaries
      {
        Armed a;
        Ros c(*src[w]);
        std::vector<Ros> v;
        v.push_back(c);
        v.push_back(std::move(c));
        *dst = v[1];
        std::swap(v[0], v[1]);
      }
      same(snapshot(*dst), want[w], "copy of a copy");
    }
    return true;
  }
  void intact() override {
    for (int i = 0; i < 2; i++)
      if (snapshot(*src[i]) != want[i]) vh::fail("changed", "the source of a failed copy changed");
    // the sources go, the target of the failed assignment remains readable
    for (auto& s : src) s.reset();
    if (dst) {
      Bytes b = snapshot(*dst);
      vh::state_bytes(b.data(), b.size());
      // and can be copied, and assigned to
      Ros c(*dst);
      if (snapshot(c) != b) vh::fail("copy", "the copy of a cloud whose assignment failed differs");
    }
    for (int i = 0; i < 2; i++) src[i] = cloud(i, external, (how + i) % 3 != 0);
  }
};
// ---- PCL
struct Pcl : Op {
  int how;
  pcl::PCLPointCloud2 in[2], out;
  pcl::PointCloud<pcl::PointXYZI> tin[2], tout;
  Bytes ser, want[2];
  std::string pcd = "# .PCD v0.7\nVERSION 0.7\nFIELDS a_long_name_of_a_field_that_needs_memory y z\nSIZE 4 8 2\nTYPE F U I\nCOUNT 1 1 1\nWIDTH 1\nHEIGHT 1\nPOINTS 1\nDATA ascii\n";
  explicit Pcl(int h) : how(h) {
    for (int i = 0; i < 2; i++) {
      uint32_t step;
      auto f = layout({0, 0, 0, i ? 7 : 0}, 0, step, 1.f);
      auto& c = in[i];
      for (auto& x : f) {
        pcl::PCLPointField q;
        q.name = x.name + " with a rather long name", q.offset = x.offset, q.count = 1;
        q.datatype = x.type == FT::FLOAT32 ? pcl::PCLPointField::FLOAT32 : pcl::PCLPointField::UINT16;
        if (x.type == FT::INT16) q.datatype = pcl::PCLPointField::INT16;
        if (x.type == FT::UINT32) q.datatype = pcl::PCLPointField::UINT32;
        if (x.type == FT::INT32) q.datatype = pcl::PCLPointField::INT32;
        c.fields.push_back(q);
      }
      c.width = 9 + i, c.height = 1, c.point_step = step, c.row_step = step * c.width;
      const Bytes b = make_cloud(c.width, f, step, 1);
      c.data.assign(b.begin(), b.end());
      for (int p = 0; p < 7 + 2 * i; p++) {
        pcl::PointXYZI q;
        memset((void*)&q, 0, sizeof q);
        q.x = p, q.y = -p, q.z = 0.5f * p, q.intensity = i;
        tin[i].push_back(q);
      }
      if (how == 1) PointcloudEncode(tin[i], want[i], 0.25);
      else PCLPointCloudEncode(in[i], want[i], 0.25);
    }
  }
  bool call(int w) override {
    if (how == 0) {
      {
        Armed a;
        PCLPointCloudEncode(in[w], ser, 0.25);
      }
      same(ser, want[w], "PCLPointCloudEncode");
    } else if (how == 1) {
      {
        Armed a;
        PointcloudEncode(tin[w], ser, 0.25);
      }
      same(ser, want[w], "PCLPointCloudEncode (points)");
      {
        Armed a;
        PointcloudDecode(ConstBufferView(want[w].data(), want[w].size()), tout);
      }
      if (tout.size() != tin[w].size()) vh::fail("result", "PCLPointCloudDecode: %zu points instead of %zu", tout.size(), tin[w].size());
      for (size_t i = 0; i < tout.size(); i++)
        if (std::abs(tout[i].x - tin[w][i].x) > 0.13f || std::abs(tout[i].z - tin[w][i].z) > 0.13f) vh::fail("result", "PCLPointCloudDecode: wrong point");
    } else if (how == 2) {
      {
        Armed a;
        PCLPointCloudDecode(ConstBufferView(want[w].data(), want[w].size()), out);
      }
      if (out.fields.size() != in[w].fields.size() || out.width != in[w].width || out.data.size() != in[w].data.size()) vh::fail("result", "PCLPointCloudDecode: wrong description");
      for (size_t i = 0; i < out.fields.size(); i++)
        if (out.fields[i].name != in[w].fields[i].name || out.fields[i].datatype != in[w].fields[i].datatype) vh::fail("result", "PCLPointCloudDecode: wrong field");
    } else {
      std::istringstream is(pcd);
      std::map<std::string, FieldType> m;
      {
        Armed a;
        m = ReadEncodingInfoFromPCD(is);
      }
      if (m.size() != 3 || m["y"] != FT::UINT64 || m["z"] != FT::INT16) vh::fail("result", "ReadEncodingInfoFromPCD: wrong types");
    }
    return true;
  }
};
// ---- C entry points: 0, and never an exception
struct Wasm : Op {
  const Two& t;
  int fn;
  Bytes want[2];
  std::string yaml[2];
  Wasm(const Two& x, int f) : t(x), fn(f) {
    for (int i = 0; i < 2; i++) yaml[i] = EncodingInfoToYAML(t.k[i].info);
    for (int i = 0; i < 2; i++) run(i, want[i]);
  }
  uint32_t run(int w, Bytes& out) {
    const Case& k = t.k[w];
    out.assign(k.plain.size() + 70000, 0);
    uint32_t r = 0;
    const auto o = (uintptr_t)out.data();
    auto p = [](const Bytes& b) { return (uintptr_t)b.data(); };
    bool escaped = false;
    {
      Armed a;
      try {
        switch (fn) {
          case 0: r = cldn_GetHeaderAsYAML(p(k.enc), (uint32_t)k.enc.size(), o); break;
          case 1: r = cldn_GetHeaderAsYAMLFromDDS(p(k.packed), (uint32_t)k.packed.size(), o); break;
          case 2: r = cldn_ComputeCompressedSize(p(k.plain), (uint32_t)k.plain.size(), 0.25f); break;
          case 3: r = cldn_GetDecompressedSize(p(k.packed), (uint32_t)k.packed.size()); break;
          case 4: r = cldn_ConvertCompressedMsgToPointCloud2Msg(p(k.packed), (uint32_t)k.packed.size(), o); break;
          case 5: r = cldn_DecodeCompressedMessage(p(k.packed), (uint32_t)k.packed.size(), o); break;
          case 6: r = cldn_DecodeCompressedData(p(k.enc), (uint32_t)k.enc.size(), o); break;
          case 7: r = cldn_EncodePointcloudMessage(p(k.plain), (uint32_t)k.plain.size(), 0.25f, o); break;
          case 8: r = cldn_EncodePointcloudData(yaml[w].c_str(), p(k.cloud), (uint32_t)k.cloud.size(), o); break;
        }
      } catch (...) {
        escaped = true;
      }
    }
    if (escaped) vh::fail("escaped", "an exception left entry point %d", fn);
    if (fn == 2 || fn == 3) {
      out.clear();
      for (int i = 0; i < 4; i++) out.push_back(uint8_t(r >> 8 * i));
    } else
      out.resize(r);
    return r;
  }
  bool call(int w) override {
    Bytes got;
    const long before = oom::g_injected;
    // the result of an input that does not fit the output is 0 anyway
    if (!run(w, got) && (!want[w].empty() || oom::g_injected != before)) return false;
    same(got, want[w], "entry point");
    return true;
  }
};

int main(int argc, char** argv) {
  vh::init(argc, argv);
  const bool T = vh::thorough();
  pcl::console::setVerbosityLevel(pcl::console::L_ALWAYS);
  for (int lay = 0; lay < 5; lay++)
    for (int v : {3, 4, 5})
      for (int e = 0; e < 3; e++)
        for (int c = 0; c < 3; c++) {
          if (!T && (lay + v + e + c) % 3) continue;
          auto two = std::make_shared<Two>();
          bool made = false;
          const std::string id = vh::fmt("%d/v%d/%d/%d", lay, v, e, c);
          auto inputs = [&] {
            if (made) return;
            made = true;
            static const EncodingOptions eo[] = {EncodingOptions::LOSSY, EncodingOptions::LOSSLESS, EncodingOptions::NONE};
            static const CompressionOption co[] = {CompressionOption::ZSTD, CompressionOption::LZ4, CompressionOption::NONE};
            two->k[0] = make_case(lay, 19, v, eo[e], co[c], false);
            two->k[1] = make_case(lay + 1, 11, v, eo[e], co[(c + 1) % 3], false);
          };
          auto go = [&](const std::string& name, const oom::Make& m, bool pairs = false) {
            vh::run_case_l([&] { return name + "/" + id; }, [&] {
              inputs();
              oom::explore(name + id, m, pairs);
            });
          };
          for (int how = 0; how < 2; how++) go(vh::fmt("encoder%d", how), [&, how] { return std::make_unique<Encoder>(*two, how); }, T);
          go("decoder", [&] { return std::make_unique<Decoder>(*two); }, T);
          go("restore", [&] { return std::make_unique<Restore>(*two); });
          if (v == 5 && e == 0) {
            go("header", [&] { return std::make_unique<Header>(*two); });
            for (bool viz : {false, true}) go(vh::fmt("compress%d", viz), [&, viz] { return std::make_unique<Compress>(*two, viz); });
          }
          if ((v == 5 || T) && lay < 3)
            for (int fn = 0; fn < 9; fn++) go(vh::fmt("entry%d", fn), [&, fn] { return std::make_unique<Wasm>(*two, fn); });
        }
  for (int n : {1, 2, 5, 20, 100, 1000})
    for (int spread = 0; spread < 3; spread++)
      vh::run_case(vh::fmt("voxels/%d/%d", n, spread), [&] { oom::explore(vh::fmt("voxels/%d/%d", n, spread), [&] { return std::make_unique<Voxels>(n, spread); }, n <= 20); });
  for (int how = 0; how < 12; how++)
    vh::run_case(vh::fmt("copies/%d", how), [&] { oom::explore(vh::fmt("copies/%d", how), [&] { return std::make_unique<Copies>(how); }, true); });
  for (int how = 0; how < 4; how++)
    vh::run_case(vh::fmt("pcl/%d", how), [&] { oom::explore(vh::fmt("pcl/%d", how), [&] { return std::make_unique<Pcl>(how); }, T); });
  return vh::finish();
}
