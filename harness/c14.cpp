// C14: conversion of serialized ROS messages, checked with an independent CDR reader / writer and the reference codec.
#include "cdr.hpp"
#include "cloudini_lib/ros_msg_utils.hpp"
#include "gen.hpp"
#include "ref.hpp"
using namespace cl;

static Bytes g_packed, g_plain;  // reused, as an application would
static void same_meta(const cdr::Msg& a, const cdr::Msg& b, const char* what) {
  if (a.big != b.big) vh::fail("endianness", "%s: byte order changed", what);
  if (a.sec != b.sec || a.nsec != b.nsec) vh::fail("stamp", "%s: stamp %d.%u became %d.%u", what, a.sec, a.nsec, b.sec, b.nsec);
  if (a.frame != b.frame) vh::fail("frame", "%s: frame_id changed", what);
  if (a.height != b.height || a.width != b.width) vh::fail("dims", "%s: %ux%u became %ux%u", what, a.width, a.height, b.width, b.height);
  if (a.fields.size() != b.fields.size()) vh::fail("fields", "%s: %zu fields became %zu", what, a.fields.size(), b.fields.size());
  for (size_t i = 0; i < a.fields.size(); i++)
    if (a.fields[i].name != b.fields[i].name || a.fields[i].offset != b.fields[i].offset || a.fields[i].type != b.fields[i].type || b.fields[i].count != 1)
      vh::fail("fields", "%s: field %zu changed", what, i);
  if (b.bigendian) vh::fail("flag", "%s: is_bigendian became true", what);
  if (a.step != b.step || a.row != b.row) vh::fail("steps", "%s: point_step/row_step %u/%u became %u/%u", what, a.step, a.row, b.step, b.row);
  if (a.dense != b.dense) vh::fail("dense", "%s: is_dense changed", what);
}
static cdr::Msg parse(const Bytes& b, bool compressed, const char* what) {
  try {
    return cdr::read(b, compressed);
  } catch (const std::exception& e) {
    vh::fail("malformed", "%s: the produced message is malformed: %s", what, e.what());
  }
}
// resolution to use for the float fields; 0: none
static void round_trip(const cdr::Msg& m, const Config& c, float res) {
  const Bytes raw = cdr::write(m);
  auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(raw.data(), raw.size()));
  vh::transition(3);
  if (pc.ros_header.stamp_sec != m.sec || pc.ros_header.stamp_nsec != m.nsec || pc.ros_header.frame_id != m.frame || pc.height != m.height || pc.width != m.width || pc.fields.size() != m.fields.size() ||
      pc.point_step != m.step || pc.row_step != m.row || pc.is_dense != bool(m.dense) || Bytes(pc.data.data(), pc.data.data() + pc.data.size()) != m.data)
    vh::fail("read", "getDeserializedPointCloudMessage: a member is wrong");
  for (size_t i = 0; i < m.fields.size(); i++)
    if (pc.fields[i].name != m.fields[i].name || pc.fields[i].offset != m.fields[i].offset || uint8_t(pc.fields[i].type) != m.fields[i].type || pc.fields[i].resolution)
      vh::fail("read", "getDeserializedPointCloudMessage: field %zu is wrong", i);
  if (res > 0) cloudini_ros::applyResolutionProfile({}, pc.fields, res);
  auto info = cloudini_ros::toEncodingInfo(pc);
  info.version = c.version;
  info.encoding_opt = c.enc;
  info.compression_opt = c.comp;
  info.use_threads = c.threads;
  cloudini_ros::convertPointCloud2ToCompressedCloud(pc, info, g_packed);
  const cdr::Msg k = parse(g_packed, true, "compressed message");
  same_meta(m, k, "compressed message");
  if (*k.format != "cloudini") vh::fail("format", "format is '%s'", k.format->c_str());
  vh::state_bytes(g_packed.data(), g_packed.size());
  if (!m.data.empty()) {
    // the data of the message is a complete stream of the library
    auto d = dec_full(k.data);
    if (d.info.width != m.width || d.info.height != m.height || d.info.point_step != m.step) vh::fail("stream", "header inside of the message disagrees with the message");
    check_cloud(c, info, m.data, d.data, 0xCD, "stream inside of the message");
  }
  auto pk = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(g_packed.data(), g_packed.size()));
  cloudini_ros::convertCompressedCloudToPointCloud2(pk, g_plain);
  const cdr::Msg r = parse(g_plain, false, "restored message");
  same_meta(m, r, "restored message");
  check_cloud(c, info, m.data, r.data, 0x00, "restored message");
  vh::validated();
}

static const std::vector<std::vector<int>> kLay{{0, 0, 0}, {0, 0, 0, 6, 9}, {3, 5}, {8}, {4, 4, 4, 4, 4}, {2, 10}, {1, 1, 1, 1, 7, 3}, {}};

int main(int argc, char** argv) {
  vh::init(argc, argv);
  const bool T = vh::thorough();
  // (1) envelope: lengths of strings modulo the alignment, byte order, flags, stamps, dimensions
  static const std::pair<uint32_t, uint32_t> dims[] = {{1, 0}, {0, 0}, {0, 5}, {1, 1}, {1, 3}, {2, 2}, {3, 1}};
  for (int be = 0; be < 2; be++)
    for (size_t l = 0; l < kLay.size(); l++)
      for (int namelen = 0; namelen <= 8; namelen++)
        vh::run_case(vh::fmt("envelope/%s/%s/%d", be ? "big" : "little", lname(kLay[l]).c_str(), namelen), [&] {
          uint32_t step;
          for (int packing = 0; packing < 3; packing++) {
            auto f = layout(kLay[l], packing, step, 0.25f);
            if (kLay[l].empty()) step = 4;
            for (size_t i = 0; i < f.size(); i++) {
              f[i].name = std::string((namelen + i * (packing + 1)) % 9, char('a' + i));
              f[i].resolution.reset();
            }
            for (int frame = 0; frame <= 9; frame++)
              for (auto [h, w] : dims)
                for (int flags = 0; flags < (T ? 8 : 2); flags++) {
                  auto m = cdr::from_layout(be, std::string(frame, 'F'), h, w, f, step, make_cloud(size_t(h) * w, f, step, flags % 3));
                  static const int32_t secs[] = {0, -1, 2147483647, -2147483647 - 1, 1};
                  static const uint32_t nsecs[] = {0, 999999999, 4294967295u, 1, 2147483648u};
                  m.sec = secs[(frame + w + flags) % 5];
                  m.nsec = nsecs[(frame + h + flags + packing) % 5];
                  m.dense = (frame + flags) % 2;
                  Config c{3 + (frame + packing) % 3, EncodingOptions((frame + w) % 3), CompressionOption((namelen + frame + flags) % 3), false};
                  if (kLay[l].empty() && c.comp == CompressionOption::LZ4 && false) continue;
                  // a cloud without fields occupies no bytes in formats >= 3: not a supported cloud
                  if (kLay[l].empty() && h * w) continue;
                  round_trip(m, c, flags % 2 ? 0.25f : 0);
                }
          }
          vh::beat();
        });
  // (1b) what is inside of the strings does not matter: zero bytes (also at the end), every byte value
  for (int be = 0; be < 2; be++)
    for (int where = 0; where < 3; where++)
      vh::run_case(vh::fmt("strings/%s/%d", be ? "big" : "little", where), [&] {
        std::vector<std::string> strs;
        for (int b = 0; b < 256; b++) {
          strs.push_back(std::string(1, char(b)));
          strs.push_back("a" + std::string(1, char(b)));
          strs.push_back(std::string(1, char(b)) + "a");
          strs.push_back("a" + std::string(1, char(b)) + "b");
        }
        for (int n = 2; n < 9; n++) strs.push_back(std::string(n, '\0')), strs.push_back("q" + std::string(n, '\0')), strs.push_back(std::string(n, ' '));
        for (size_t n : {255, 256, 257, 4095, 65535, 65536, 70001}) strs.push_back(std::string(n, 'L'));
        for (auto& str : strs) {
          uint32_t step;
          auto f = layout(kLay[1], 0, step, 0.25f);
          for (auto& x : f) x.resolution.reset();
          std::string frame = "map";
          if (where == 0) frame = str;
          else f[where == 1 ? 0 : f.size() - 1].name = str;
          auto m = cdr::from_layout(be, frame, 1, 2, f, step, make_cloud(2, f, step, 1));
          round_trip(m, Config{3 + int(str.size()) % 3, EncodingOptions::LOSSY, CompressionOption(str.size() % 3), false}, 0.25f);
        }
      });
  // (2) all configurations and layouts
  for (auto& c : all_configs())
    for (int be = 0; be < 2; be++)
      for (size_t l = 0; l + 1 < kLay.size(); l++) {
        vh::run_case_l([&] { return vh::fmt("config/%s/%d/%s", c.str().c_str(), be, lname(kLay[l]).c_str()); }, [&] {
          for (size_t n : {1, 2, 7, 300, 32767, 32768, 32769, 70000}) {
            if (n > 400 && !T && (c.threads || be || n != 32769 || c.version == 4)) continue;
            uint32_t step;
            auto f = layout(kLay[l], int(l + n) % 3, step, 0.25f);
            auto m = cdr::from_layout(be, "map", 1, (uint32_t)n, f, step, make_cloud(n, f, step, int(n % 3)));
            round_trip(m, c, 0.25f);
            round_trip(m, c, 0);
          }
          vh::beat();
        });
      }
  // (3) messages of other producers: both header forms, strings without terminator, versions 2..5
  for (auto& c : all_configs({2, 3, 4, 5}, false))
    for (int be = 0; be < 2; be++)
      vh::run_case_l([&] { return vh::fmt("foreign/%s/%d", c.str().c_str(), be); }, [&] {
        for (size_t l = 0; l + 1 < kLay.size(); l++)
          for (int form = 0; form < 2; form++)
            for (size_t n : {1, 5, 40}) {
              uint32_t step;
              auto f = layout(kLay[l], form, step, 0.25f);
              Bytes cloud = make_cloud(n, f, step, 1);
              auto info = make_info(c, f, step, (uint32_t)n);
              Bytes data = form ? ref::header_yaml(info) : ref::header_binary(info), p = ref::encode_payload(info, cloud);
              data.insert(data.end(), p.begin(), p.end());
              auto m = cdr::from_layout(be, std::string(n % 7, 'x'), 1, (uint32_t)n, f, step, data);
              m.format = std::string(l, 'c');
              Bytes b = cdr::write(m);
              if (l == 0) b.resize(b.size() - 5 - m.format->size());  // without the last member, which is not needed
              auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(b.data(), b.size()));
              cloudini_ros::convertCompressedCloudToPointCloud2(pc, g_plain);
              vh::transition(2);
              auto r = parse(g_plain, false, "restored message");
              m.format.reset();
              same_meta(m, r, "restored message");
              check_cloud(c, info, cloud, r.data, 0, "restored message");
              vh::validated();
            }
      });
  // (3b) many fields, many points
  for (int be = 0; be < 2; be++) {
    for (int nf : wide_counts(T))
      vh::run_case(vh::fmt("many-fields/%d/%d", be, nf), [&] {
        for (int rot = 0; rot < 12; rot++)
          for (uint32_t n : {0u, 1u, 5u}) {
            uint32_t step;
            auto f = layout(wide_kinds(nf, rot), rot % 3, step, 0.25f);
            for (auto& x : f) x.resolution.reset();
            auto m = cdr::from_layout(be, std::string(nf % 5, 'm'), 1, n, f, step, make_cloud(n, f, step, rot % 3));
            Config c{3 + (rot + nf) % 3, EncodingOptions(rot / 3 % 3), CompressionOption(rot % 3), rot == 7};
            round_trip(m, c, rot % 2 ? 0.25f : 0);
          }
        vh::beat();
      });
    static const std::pair<uint32_t, uint32_t> big[] = {{1, 65535}, {1, 65536}, {1, 65537}, {65536, 1}, {65537, 2}, {3, 70000}, {300, 300}, {1024, 1025}};
    for (auto [h, w] : big)
      vh::run_case(vh::fmt("many-points/%d/%ux%u", be, h, w), [&] {
        for (int k = 0; k < 3; k++) {
          uint32_t step;
          auto f = layout(kLay[k == 0 ? 3 : k], k, step, 0.25f);
          for (auto& x : f) x.resolution.reset();
          auto m = cdr::from_layout(be, "map", h, w, f, step, make_cloud(size_t(h) * w, f, step, k));
          round_trip(m, Config{5, EncodingOptions::LOSSY, CompressionOption(k), k == 2}, 0.25f);
          vh::beat();
        }
      });
  }
  // (4) the CDR coder itself: all short sequences of members, both byte orders, both alignment rules
  for (int be = 0; be < 2; be++)
    for (int xcdr2 = 0; xcdr2 < 2; xcdr2++)
      for (int first = 0; first < 12; first++)
        vh::run_case(vh::fmt("cdr/%s/%d/%d", be ? "big" : "little", xcdr2, first), [&] {
          all_sequences(12, 0, T ? 5 : 3, [&](const std::vector<int>& d) {
            std::vector<int> seq{first};
            seq.insert(seq.end(), d.begin(), d.end());
            nanocdr::CdrHeader h;
            h.endianness = be ? nanocdr::Endianness::CDR_BIG_ENDIAN : nanocdr::Endianness::CDR_LITTLE_ENDIAN;
            h.version = xcdr2 ? nanocdr::CdrVersion::XCDRv2 : nanocdr::CdrVersion::DDS_CDR;
            h.encoding = xcdr2 ? nanocdr::EncodingFlag::PLAIN_CDR2 : nanocdr::EncodingFlag::PLAIN_CDR;
            Bytes got(3, 9);
            nanocdr::Encoder e(h, got);
            cdr::Out o(be, xcdr2 ? 4 : 8, xcdr2 ? 4 : 0);
            const uint64_t V = 0x8182838485868788ull;
            double dv = -1.5e300;
            float fv = 3.25e-20f;
            uint64_t db;
            uint32_t fb;
            memcpy(&db, &dv, 8);
            memcpy(&fb, &fv, 4);
            for (int k : seq) {
              std::string s(k >= 7 && k < 10 ? k - 7 : 0, 'z');
              switch (k) {
                case 0: e.encode(uint8_t(V)); o.u(uint8_t(V), 1); break;
                case 1: e.encode(uint16_t(V)); o.u(uint16_t(V), 2); break;
                case 2: e.encode(uint32_t(V)); o.u(uint32_t(V), 4); break;
                case 3: e.encode(uint64_t(V)); o.u(V, 8); break;
                case 4: e.encode(dv); o.u(db, 8); break;
                case 5: e.encode(fv); o.u(fb, 4); break;
                case 6: e.encode(true); o.u(1, 1); break;
                case 7: case 8: case 9: e.encode(s); o.s(s); break;
                case 10: {
                  std::vector<uint16_t> v{1, 0x8000, 77};
                  e.encode(v);
                  o.u(3, 4);
                  for (auto x : v) o.u(x, 2);
                } break;
                case 11: {
                  Bytes v{1, 2, 3};
                  e.encode(ConstBufferView(v.data(), v.size()));
                  o.blob(v);
                } break;
              }
            }
            vh::transition();
            if (got != o.b) vh::fail("cdr-encode", "sequence %s: wrong serialization %s instead of %s", vh::hex(seq.data(), seq.size() * 4).c_str(), vh::hex(got.data(), got.size()).c_str(), vh::hex(o.b.data(), o.b.size()).c_str());
            nanocdr::Decoder r(ConstBufferView(o.b.data(), o.b.size()), xcdr2 ? nanocdr::CdrVersion::XCDRv2 : nanocdr::CdrVersion::DDS_CDR);
            bool ok = true;
            for (int k : seq) {
              switch (k) {
                case 0: { uint8_t x; r.decode(x); ok &= x == uint8_t(V); } break;
                case 1: { uint16_t x; r.decode(x); ok &= x == uint16_t(V); } break;
                case 2: { uint32_t x; r.decode(x); ok &= x == uint32_t(V); } break;
                case 3: { uint64_t x; r.decode(x); ok &= x == V; } break;
                case 4: { double x; r.decode(x); ok &= x == dv; } break;
                case 5: { float x; r.decode(x); ok &= x == fv; } break;
                case 6: { bool x; r.decode(x); ok &= x; } break;
                case 7: case 8: case 9: { std::string x = "junk"; r.decode(x); ok &= x == std::string(k - 7, 'z'); } break;
                case 10: { std::vector<uint16_t> x; r.decode(x); ok &= x == std::vector<uint16_t>{1, 0x8000, 77}; } break;
                case 11: { ConstBufferView x; r.decode(x); ok &= x.size() == 3 && x.data()[2] == 3; } break;
              }
            }
            if (!ok || r.currentBuffer().size()) vh::fail("cdr-decode", "sequence %s: wrong value decoded", vh::hex(seq.data(), seq.size() * 4).c_str());
            vh::validated();
          });
        });
  return vh::finish();
}
