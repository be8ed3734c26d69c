// C20: independent objects may be used from different threads at the same time: no shared mutable state, same results.
#include "cloudini_lib/ros_msg_utils.hpp"
#include "c20ops.hpp"
#include "mc_enc.hpp"
using namespace mce;
using namespace c20;

namespace {
Bytes dds_message(const Layout& l, size_t pts, int pattern) {
  cloudini_ros::RosPointCloud2 m;
  m.ros_header.stamp_sec = 12;
  m.ros_header.stamp_nsec = 34;
  m.ros_header.frame_id = "frame";
  m.height = 1;
  m.width = (uint32_t)pts;
  m.fields = l.f;
  m.point_step = l.step;
  m.row_step = l.step * m.width;
  Bytes data = cloud(pts, pattern, l.step);
  Bytes out;
  nanocdr::Encoder enc(nanocdr::CdrHeader{}, out);
  cloudini_ros::writePointCloudHeader(enc, m);
  enc.encode(uint32_t(data.size()));
  out.insert(out.end(), data.begin(), data.end());
  enc.encode(true);
  return out;
}

std::vector<Op> make_ops(int k) {  // k: distinguishes the data used by the two threads
  std::vector<Op> ops;
  auto encode = [&](const char* n, Config c, int lay, size_t pts) {
    Layout l = layout(lay);
    EncodingInfo info = make_info(c, l.f, l.step, uint32_t(pts));
    Bytes in = cloud(pts, k, l.step);
    ops.push_back({std::string(n) + " " + c.str(), [info, in] {
                     PointcloudEncoder e(info);
                     Bytes out;
                     e.encode(ConstBufferView(in.data(), in.size()), out);
                     return out;
                   }});
    Config cs = c;
    cs.threads = false;
    PointcloudEncoder e(make_info(cs, l.f, l.step, uint32_t(pts)));
    Bytes enc = enc_vec(e, in);
    if (!c.threads)
      ops.push_back({"decode " + c.str(), [enc] {
                       ConstBufferView v(enc.data(), enc.size());
                       EncodingInfo i = DecodeHeader(v);
                       Bytes out(size_t(i.width) * i.height * i.point_step, 0xCD);
                       PointcloudDecoder d;
                       d.decode(i, v, BufferView(out.data(), out.size()));
                       return out;
                     }});
  };
  encode("encode", {4, EncodingOptions::LOSSY, CompressionOption::ZSTD, true}, 0, 5);
  encode("encode", {5, EncodingOptions::LOSSY, CompressionOption::LZ4, true}, 2, 5);
  encode("encode", {5, EncodingOptions::LOSSY, CompressionOption::ZSTD, false}, 2, 3 * CH + 3);
  encode("encode", {5, EncodingOptions::LOSSLESS, CompressionOption::NONE, false}, 3, 2 * CH);
  encode("encode", {4, EncodingOptions::LOSSLESS, CompressionOption::LZ4, false}, 3, 2 * CH);
  encode("encode", {3, EncodingOptions::LOSSY, CompressionOption::LZ4, false}, 2, 2 * CH);
  // every field codec and every column codec of version 5: columns that favour each of them, several chunks
  {
    std::vector<PointField> f;
    uint32_t off = 0;
    auto add = [&](const char* n, FT t, std::optional<float> r) {
      f.push_back({n, off, t, r});
      off += size_of(t);
    };
    add("x", FT::FLOAT32, 0.01f), add("y", FT::FLOAT32, 0.01f), add("z", FT::FLOAT32, 0.01f), add("w", FT::FLOAT32, 0.02f);
    add("plain", FT::FLOAT32, {}), add("dr", FT::FLOAT64, 0.001f), add("dg", FT::FLOAT64, {});
    add("delta", FT::UINT32, {}), add("palette", FT::UINT64, {}), add("rle", FT::INT16, {}), add("deltarle", FT::INT64, {}), add("bytes", FT::UINT8, {}), add("ibytes", FT::INT8, {}), add("mix", FT::UINT16, {}), add("neg", FT::INT32, {});
    const size_t pts = 2 * CH + 3 + k;
    const uint32_t step = off + 1;
    Bytes in(pts * step, 0x55);
    uint64_t s = 0x9E3779B97F4A7C15ull * (k + 1);
    for (size_t p = 0; p < pts; p++) {
      s ^= s << 13, s ^= s >> 7, s ^= s << 17;
      for (auto& q : f) {
        const size_t o = p * step + q.offset;
        uint64_t v = q.name == "palette" ? 0x123456789ABCDEFull * (1 + s % 3) : q.name == "rle" ? 300 * k + p / CH : q.name == "deltarle" ? 1000000007ull * p : q.name == "mix" ? (p % CH < CH / 2 ? 7 : s) : s >> 5;
        if (q.type == FT::FLOAT32) put<float>(in, o, p % 5 == 4 ? NAN : float(int(s % 2001) - 1000) * 0.013f);
        else if (q.type == FT::FLOAT64) put<double>(in, o, double(p) * 1.5 + double(s % 3));
        else put_raw(in, o, v, size_of(q.type));
      }
    }
    for (auto c : {Config{5, EncodingOptions::LOSSY, CompressionOption::NONE, false}, Config{5, EncodingOptions::LOSSLESS, CompressionOption::LZ4, false}, Config{4, EncodingOptions::LOSSY, CompressionOption::NONE, false},
                   Config{3, EncodingOptions::LOSSLESS, CompressionOption::ZSTD, false}, Config{5, EncodingOptions::NONE, CompressionOption::LZ4, false}}) {
      EncodingInfo info = make_info(c, f, step, uint32_t(pts));
      ops.push_back({"all codecs " + c.str(), [info, in, c] {
                       PointcloudEncoder e(info);
                       Bytes enc;
                       e.encode(ConstBufferView(in.data(), in.size()), enc);
                       const size_t n = enc.size();
                       ConstBufferView v(enc.data(), n);
                       EncodingInfo i = DecodeHeader(v);
                       Bytes out(size_t(i.width) * i.height * i.point_step, 0xCD);
                       PointcloudDecoder d;
                       d.decode(i, v, BufferView(out.data(), out.size()));
                       out.insert(out.end(), enc.begin(), enc.end());
                       return out;
                     }});
    }
  }
  {
    Layout l = layout(2);
    Bytes msg = dds_message(l, 2 * CH + k, k), small = dds_message(l, 3 + k, k);
    for (bool thr : {false, true})
      ops.push_back({vh::fmt("dds%s", thr ? "/thr" : ""), [msg = thr ? small : msg, thr] {
                       auto m = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(msg.data(), msg.size()));
                       cloudini_ros::applyResolutionProfile({{"i", 0.0f}}, m.fields, 0.01f);
                       EncodingInfo info = cloudini_ros::toEncodingInfo(m);
                       info.use_threads = thr;
                       Bytes comp, out;
                       cloudini_ros::convertPointCloud2ToCompressedCloud(m, info, comp);
                       auto c = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(comp.data(), comp.size()));
                       cloudini_ros::convertCompressedCloudToPointCloud2(c, out);
                       return out;
                     }});
    ops.push_back({"viz", [msg] {
                     auto m = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(msg.data(), msg.size()));
                     cloudini_ros::applyResolutionProfile({}, m.fields, 0.01f);
                     cloudini_ros::applyVizLossyPreprocessing(m);
                     auto copy = m;
                     return Bytes(copy.data.data(), copy.data.data() + copy.data.size());
                   }});
  }
  {
    EncodingInfo info = make_info({5, EncodingOptions::LOSSY, CompressionOption::ZSTD, true}, layout(2).f, 14, 100 + k);
    ops.push_back({"headers", [info] {
                     Bytes a, b;
                     EncodeHeader(info, a);
                     EncodeHeader(info, b, HeaderEncoding::BINARY);
                     ConstBufferView v(a.data(), a.size());
                     EncodingInfo i = DecodeHeader(v);
                     Bytes c;
                     EncodeHeader(i, c, HeaderEncoding::BINARY);
                     if (c != b) vh::fail("header", "headers differ");
                     a.insert(a.end(), b.begin(), b.end());
                     return a;
                   }});
  }
  return ops;
}
}  // namespace

int main(int argc, char** argv) {
  vh::init(argc, argv);
  const bool T = vh::thorough();
  auto A = make_ops(1), B = make_ops(2), C = make_ops(3);
  auto thr = [](const Op& o) { return o.name.find("/thr") != std::string::npos; };
  for (size_t i = 0; i < A.size(); i++)
    for (size_t j = i; j < B.size(); j++)
      // two independent pairs of threads: full enumeration only in the thorough tier
      together({&A[i], &B[j]}, thr(A[i]) && thr(B[j]) && !T ? 1 : -1);
  // three threads: the same operation three times, and neighbours in the list
  for (size_t i = 0; i < A.size(); i++) {
    const size_t j = (i + 1) % A.size(), k = (i + 2) % A.size();
    if (!thr(A[i])) together({&A[i], &B[i], &C[i]}, -1);
    const int w = thr(A[i]) + thr(B[j]) + thr(C[k]);
    together({&A[i], &B[j], &C[k]}, w > 1 ? (T ? 1 : 0) : w ? (T ? 2 : 1) : -1);
  }
  return vh::finish();
}
