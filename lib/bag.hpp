// Bags (MCAP files) as values: written and read independently of the tools, with expectations about converted ones.
#pragma once
#include <unistd.h>

#include <filesystem>
#include <fstream>
#include <set>

#include "cdr.hpp"
#include "cloudini_lib/ros_msg_utils.hpp"
#include "gen.hpp"
#include "mcap/reader.hpp"
#include "mcap/types.hpp"
#include "mcap/writer.hpp"

namespace bag {
using namespace cl;
namespace fs = std::filesystem;
inline const std::string kPlain = "sensor_msgs/msg/PointCloud2", kPacked = "point_cloud_interfaces/msg/CompressedPointCloud2";
struct Msg {
  uint16_t channel;
  uint32_t sequence;
  uint64_t log, pub;
  Bytes data;
  bool operator==(const Msg&) const = default;
};
struct Att {
  uint64_t log, create;
  std::string name, type;
  Bytes data;
  bool operator==(const Att&) const = default;
  auto operator<=>(const Att&) const = default;
};
struct Sch {
  std::string name, encoding, data;
};
struct Chan {
  std::string topic, encoding;
  uint16_t schema;
  std::map<std::string, std::string> metadata;
};
struct Bag {
  std::string profile, library;
  std::map<uint16_t, Sch> schemas;
  std::map<uint16_t, Chan> channels;
  std::vector<Msg> messages;
  std::vector<std::pair<std::string, std::map<std::string, std::string>>> metadata;
  std::vector<Att> attachments;
};
inline Bytes to_file(const Bag& b) {
  using mcap::shim::Out;
  Out f;
  f.raw(mcap::shim::kMagic, 8);
  auto rec = [&](mcap::OpCode o, const Out& r) { f.num(uint8_t(o)), f.num(uint64_t(r.b.size())), f.raw(r.b.data(), r.b.size()); };
  auto kv = [](const std::map<std::string, std::string>& m) { return mcap::KeyValueMap(m.begin(), m.end()); };
  {
    Out r;
    r.str(b.profile), r.str("harness");
    rec(mcap::OpCode::Header, r);
  }
  for (auto& [id, s] : b.schemas) {
    Out r;
    r.num(id), r.str(s.name), r.str(s.encoding), r.str(s.data);
    rec(mcap::OpCode::Schema, r);
  }
  for (auto& [id, c] : b.channels) {
    Out r;
    r.num(id), r.num(c.schema), r.str(c.topic), r.str(c.encoding), r.map(kv(c.metadata));
    rec(mcap::OpCode::Channel, r);
  }
  size_t k = 0;
  for (auto& m : b.messages) {
    Out r;
    r.num(m.channel), r.num(m.sequence), r.num(m.log), r.num(m.pub), r.raw(m.data.data(), m.data.size());
    rec(mcap::OpCode::Message, r);
    if (k < b.attachments.size()) {  // in between
      auto& a = b.attachments[k++];
      Out x;
      x.num(a.log), x.num(a.create), x.str(a.name), x.str(a.type), x.num(uint64_t(a.data.size())), x.raw(a.data.data(), a.data.size()), x.num(uint32_t(0));
      rec(mcap::OpCode::Attachment, x);
    }
  }
  for (; k < b.attachments.size(); k++) {
    auto& a = b.attachments[k];
    Out x;
    x.num(a.log), x.num(a.create), x.str(a.name), x.str(a.type), x.num(uint64_t(a.data.size())), x.raw(a.data.data(), a.data.size()), x.num(uint32_t(0));
    rec(mcap::OpCode::Attachment, x);
  }
  for (auto& [n, m] : b.metadata) {
    Out r;
    r.str(n), r.map(kv(m));
    rec(mcap::OpCode::Metadata, r);
  }
  Out e;
  e.num(uint64_t(0)), e.num(uint64_t(0)), e.num(uint32_t(0));
  rec(mcap::OpCode::Footer, e);
  f.raw(mcap::shim::kMagic, 8);
  return Bytes((const uint8_t*)f.b.data(), (const uint8_t*)f.b.data() + f.b.size());
}
inline Bytes slurp(const fs::path& p) {
  std::ifstream f(p, std::ios::binary);
  return Bytes(std::istreambuf_iterator<char>(f), {});
}
inline void spit(const fs::path& p, const Bytes& b) {
  std::ofstream f(p, std::ios::binary);
  f.write((const char*)b.data(), b.size());
}
inline Bag from_file(const fs::path& p) {
  mcap::McapReader r;
  auto s = r.open(p.string());
  if (!s.ok()) vh::fail("output", "%s is no readable bag: %s", p.filename().c_str(), s.message.c_str());
  bool bad = false;
  auto problem = [&](const mcap::Status&) { bad = true; };
  r.readSummary(mcap::ReadSummaryMethod::AllowFallbackScan, problem);
  Bag b;
  b.profile = r.header()->profile, b.library = r.header()->library;
  auto kv = [](const mcap::KeyValueMap& m) { return std::map<std::string, std::string>(m.begin(), m.end()); };
  auto bytes = [](const std::byte* q, size_t n) { return Bytes((const uint8_t*)q, (const uint8_t*)q + n); };
  for (auto& [i, x] : r.schemas()) b.schemas[i] = {x->name, x->encoding, std::string((const char*)x->data.data(), x->data.size())};
  for (auto& [i, x] : r.channels()) b.channels[i] = {x->topic, x->messageEncoding, x->schemaId, kv(x->metadata)};
  for (auto& v : r.readMessages(problem, {})) b.messages.push_back({v.message.channelId, v.message.sequence, v.message.logTime, v.message.publishTime, bytes(v.message.data, v.message.dataSize)});
  for (auto& [n, i] : r.metadataIndexes()) {
    mcap::Record rec;
    mcap::Metadata m;
    mcap::McapReader::ReadRecord(*r.dataSource(), i.offset, &rec);
    mcap::McapReader::ParseMetadata(rec, &m);
    b.metadata.push_back({m.name, kv(m.metadata)});
  }
  for (auto& [n, i] : r.attachmentIndexes()) {
    mcap::Record rec;
    mcap::Attachment a;
    mcap::McapReader::ReadRecord(*r.dataSource(), i.offset, &rec);
    mcap::McapReader::ParseAttachment(rec, &a);
    b.attachments.push_back({a.logTime, a.createTime, a.name, a.mediaType, bytes(a.data, a.dataSize)});
  }
  if (bad) vh::fail("output", "%s is damaged", p.filename().c_str());
  return b;
}
using Profile = std::map<std::string, float>;
struct Job {
  bool encode = true;
  std::optional<float> resolution;
  Profile profile;
  bool viz = false;
  CompressionOption comp = CompressionOption::ZSTD;
};
inline cdr::Msg parse(const Bytes& b, bool packed, const char* what) {
  try {
    return cdr::read(b, packed);
  } catch (const std::exception& e) {
    vh::fail("message", "%s: malformed message: %s", what, e.what());
  }
}
inline void envelope(const cdr::Msg& a, const cdr::Msg& b, const char* what) {
  if (a.sec != b.sec || a.nsec != b.nsec || a.frame != b.frame) vh::fail("header", "%s: the header of the message changed", what);
  if (a.height != b.height || a.width != b.width || a.step != b.step) vh::fail("dims", "%s: %ux%u (%u) became %ux%u (%u)", what, a.width, a.height, a.step, b.width, b.height, b.step);
  if (!a.dense != !b.dense) vh::fail("dense", "%s: is_dense changed", what);
}
// points of `out` (0 where nothing was written), every remaining field within its guarantee
inline void points(const EncodingInfo& info, const Bytes& in, Bytes out, const char* what) {
  if (out.size() != in.size()) vh::fail("size", "%s: %zu bytes of points instead of %zu", what, out.size(), in.size());
  std::vector<char> used(info.point_step, 0);
  for (auto& f : info.fields)
    for (int k = 0; k < size_of(f.type); k++) used[f.offset + k] = 1;
  for (size_t k = 0; k < out.size(); k++)
    if (!used[k % info.point_step]) out[k] = 0xCD;
  check_cloud({(int)info.version, info.encoding_opt, info.compression_opt, false}, info, in, out, 0xCD, what);
}
// `out` is what the message `in` shall become
inline void check_message(const Job& j, const Bytes& in, const Bytes& out) {
  if (j.encode) {
    auto a = parse(in, false, "input"), b = parse(out, true, "encoded");
    if (*b.format != "cloudini") vh::fail("format", "format '%s'", b.format->c_str());
    EncodingInfo want;
    want.point_step = a.step;
    for (auto& f : a.fields) {
      PointField p{f.name, f.offset, FT(f.type), {}};
      auto it = j.profile.find(f.name);
      if (it != j.profile.end() && it->second == 0) continue;
      if (it != j.profile.end()) p.resolution = it->second;
      else if (j.resolution && p.type == FT::FLOAT32) p.resolution = j.resolution;
      want.fields.push_back(p);
    }
    if (j.viz) {  // decided by the check of that function
      cloudini_ros::RosPointCloud2 pc;
      pc.height = a.height, pc.width = a.width, pc.point_step = a.step, pc.row_step = a.row, pc.fields = want.fields, pc.is_dense = a.dense;
      pc.data = ConstBufferView(a.data.data(), a.data.size());
      cloudini_ros::applyVizLossyPreprocessing(pc);
      a.height = pc.height, a.width = pc.width, a.dense = pc.is_dense;
      want.fields = pc.fields;
      a.data = Bytes(pc.data.data(), pc.data.data() + pc.data.size());
    }
    want.width = a.width, want.height = a.height;
    envelope(a, b, "encoded");
    Decoded d;
    if (b.data.empty() && a.data.empty()) d.info = want;  // empty clouds have no stream
    else d = dec_full(b.data);
    if (d.info.fields.size() != want.fields.size()) vh::fail("fields", "%zu fields instead of %zu", d.info.fields.size(), want.fields.size());
    for (size_t i = 0; i < want.fields.size(); i++)
      if (!(d.info.fields[i] == want.fields[i]))
        vh::fail("fields", "field '%s' at %u with resolution %g became '%s' at %u with resolution %g", want.fields[i].name.c_str(), want.fields[i].offset, want.fields[i].resolution.value_or(-1), d.info.fields[i].name.c_str(), d.info.fields[i].offset, d.info.fields[i].resolution.value_or(-1));
    if (b.fields.size() != want.fields.size()) vh::fail("fields", "the message lists %zu fields instead of %zu", b.fields.size(), want.fields.size());
    for (size_t i = 0; i < want.fields.size(); i++)
      if (b.fields[i].name != want.fields[i].name || b.fields[i].offset != want.fields[i].offset || b.fields[i].type != uint8_t(want.fields[i].type)) vh::fail("fields", "the message describes field %zu differently", i);
    points(want, a.data, d.data, "encoded");
    vh::state_bytes(b.data.data(), b.data.size());
  } else {
    auto a = parse(in, true, "input"), b = parse(out, false, "decoded");
    Decoded d;
    if (a.data.empty() && (a.width == 0 || a.height == 0)) d.info.width = a.width, d.info.height = a.height, d.info.point_step = a.step;
    else d = dec_full(a.data);
    a.width = d.info.width, a.height = d.info.height, a.step = d.info.point_step;
    envelope(a, b, "decoded");
    if (b.fields.size() != a.fields.size()) vh::fail("fields", "%zu fields instead of %zu", b.fields.size(), a.fields.size());
    for (size_t i = 0; i < a.fields.size(); i++)
      if (b.fields[i].name != a.fields[i].name || b.fields[i].offset != a.fields[i].offset || b.fields[i].type != a.fields[i].type || b.fields[i].count != a.fields[i].count) vh::fail("fields", "field %zu changed", i);
    if (b.data.size() != d.data.size()) vh::fail("size", "%zu bytes of points instead of %zu", b.data.size(), d.data.size());
    for (size_t p = 0; p * a.step < d.data.size(); p++)
      for (auto& f : d.info.fields)
        if (memcmp(&d.data[p * a.step + f.offset], &b.data[p * a.step + f.offset], size_of(f.type))) vh::fail("points", "point %zu, field '%s' differs from the decoded stream", p, f.name.c_str());
  }
  vh::validated();
}
inline void check_converted(const Job& j, const Bag& in, const Bag& out) {
  const std::string &from = j.encode ? kPlain : kPacked, &to = j.encode ? kPacked : kPlain;
  if (in.profile != out.profile) vh::fail("profile", "the profile of the bag '%s' became '%s'", in.profile.c_str(), out.profile.c_str());
  const std::string how = j.comp == CompressionOption::ZSTD ? ";zstd" : j.comp == CompressionOption::LZ4 ? ";lz4" : ";none";
  if (out.library.size() < how.size() || out.library.substr(out.library.size() - how.size()) != how) vh::fail("compression", "the bag was written with '%s'", out.library.c_str());
  auto describe = [&](const Bag& b, const Chan& c, const std::string& f) {
    std::string s = c.topic + "|" + c.encoding + "|";
    for (auto& [k, v] : c.metadata) s += k + "=" + v + ",";
    if (c.schema == 0) return s + "|no schema";
    auto it = b.schemas.find(c.schema);
    if (it == b.schemas.end()) return s + "|missing schema";
    // the definition of the type that is produced is checked below
    const bool conv = it->second.name == f || it->second.name == to;
    return s + "|" + (conv ? to : it->second.name) + "|" + it->second.encoding + "|" + (conv ? "#" : it->second.data);
  };
  std::multiset<std::string> cw, cg;
  for (auto& [i, c] : in.channels) cw.insert(describe(in, c, from));
  for (auto& [i, c] : out.channels) cg.insert(describe(out, c, to));
  for (auto& s : cg)
    if (!cw.count(s)) vh::fail("channels", "the converted bag has the channel %s; %s", s.substr(0, 300).c_str(), cw.empty() ? "there was none" : vh::fmt("expected was e.g. %s", cw.begin()->substr(0, 300).c_str()).c_str());
  if (cw != cg) vh::fail("channels", "%zu channels became %zu", cw.size(), cg.size());
  std::multiset<std::string> sw, sg;
  for (auto& [i, s] : in.schemas)
    if (s.name != from) sw.insert(s.name + "|" + s.encoding + "|" + s.data);
  for (auto& [i, s] : out.schemas) {
    const std::string id = s.name + "|" + s.encoding + "|" + s.data;
    if (s.name == to && !sw.count(id)) {
      // what describes the converted messages is the definition of the right type
      if ((s.data.find("compressed_data") != std::string::npos) != j.encode || (s.data.find("uint8[] data") != std::string::npos) == j.encode) vh::fail("schema", "the converted schema has the wrong definition");
      continue;
    }
    sg.insert(id);
  }
  if (sw != sg) vh::fail("schemas", "%zu unconverted schemas became %zu, or changed", sw.size(), sg.size());
  auto mw = in.metadata, mg = out.metadata;
  std::sort(mw.begin(), mw.end()), std::sort(mg.begin(), mg.end());
  if (mw != mg) vh::fail("metadata", "the metadata of the bag changed (%zu records became %zu)", mw.size(), mg.size());
  auto aw = in.attachments, ag = out.attachments;
  std::sort(aw.begin(), aw.end()), std::sort(ag.begin(), ag.end());
  if (aw != ag) vh::fail("attachments", "the attachments of the bag changed (%zu became %zu)", aw.size(), ag.size());
  if (in.messages.size() != out.messages.size()) vh::fail("messages", "%zu messages became %zu", in.messages.size(), out.messages.size());
  for (size_t i = 0; i < in.messages.size(); i++) {
    auto &a = in.messages[i], &b = out.messages[i];
    auto &ca = in.channels.at(a.channel), &cb = out.channels.at(b.channel);
    if (describe(in, ca, from) != describe(out, cb, to)) vh::fail("channel", "message %zu of %s went to %s", i, ca.topic.c_str(), cb.topic.c_str());
    if (a.sequence != b.sequence || a.log != b.log || a.pub != b.pub) vh::fail("times", "message %zu: sequence number or times changed", i);
    const bool conv = ca.schema && in.schemas.at(ca.schema).name == from;
    if (!conv) {
      if (a.data != b.data) vh::fail("untouched", "message %zu of %s (not converted) changed", i, ca.topic.c_str());
      vh::validated();
    } else
      check_message(j, a.data, b.data);
  }
}
// ---- generation
enum Kind { kCloud, kCloud2, kCompressed, kText, kJson, kIdle, kKinds_ };
struct Scratch {
  fs::path dir;
  Scratch() {
    char t[] = "/tmp/verif-bag-XXXXXX";
    if (!mkdtemp(t)) throw std::runtime_error("mkdtemp");
    dir = t;
  }
  ~Scratch() {
    std::error_code e;
    fs::current_path("/", e);
    fs::remove_all(dir, e);
  }
  fs::path operator/(const std::string& s) const { return dir / s; }
};
inline cdr::Msg cloud_message(int tag) {
  static const std::vector<std::vector<int>> lays{{0, 0, 0, 6}, {0, 0, 0, 0, 2}, {0, 0, 0}, {5, 9, 3}, {0, 0, 0, 7, 8}};
  auto& l = lays[tag % lays.size()];
  uint32_t step;
  auto f = layout(l, tag % 3, step, 1.f);
  static const char* names[] = {"x", "y", "z", "intensity", "time"};
  for (size_t i = 0; i < f.size(); i++) f[i].name = l[0] == 0 ? names[i] : std::string(names[4 - i]) + (i ? "" : "2");
  const uint32_t w = tag % 4 == 3 ? 0 : tag % 23 == 6 ? 700 : 1 + 2 * (tag % 4), h = tag % 5 == 2 ? 2 : 1;
  auto m = cdr::from_layout(tag % 2, std::string(tag % 5, 'f'), h, w, f, step, make_cloud(w * h, f, step, tag % 3));
  m.sec = -3 + tag, m.nsec = 999999999 - tag, m.dense = tag % 3 != 1;
  return m;
}
inline Bytes packed_message(int tag) {
  const Bytes raw = cdr::write(cloud_message(tag));
  auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(raw.data(), raw.size()));
  cloudini_ros::applyResolutionProfile({}, pc.fields, 0.01f);
  auto info = cloudini_ros::toEncodingInfo(pc);
  info.version = 3 + tag % 3;
  info.encoding_opt = tag % 7 == 5 ? EncodingOptions::LOSSLESS : tag % 7 == 2 ? EncodingOptions::NONE : EncodingOptions::LOSSY;
  info.compression_opt = CompressionOption(tag % 3);
  Bytes out;
  cloudini_ros::convertPointCloud2ToCompressedCloud(pc, info, out);
  return out;
}
// channels of the given kinds with the given messages (index of the channel); ids are sparse and in any order
inline Bag make_bag(const std::vector<int>& kinds, const std::vector<int>& msgs, int variant) {
  Bag b;
  b.profile = variant % 3 ? "ros2" : "";
  const uint16_t base = variant % 2 ? 7 : variant % 4 ? 2 : 1, stride = variant % 4 ? 5 : 1;
  std::vector<uint16_t> ids;
  for (size_t i = 0; i < kinds.size(); i++) ids.push_back(uint16_t(base + stride * (variant % 4 < 2 ? i : kinds.size() - 1 - i)));
  auto schema = [&](const std::string& name, const std::string& enc, const std::string& data) -> uint16_t {
    for (auto& [i, s] : b.schemas)
      if (s.name == name && variant % 5 != 4) return i;  // or a schema of its own for every channel
    uint16_t id = uint16_t(variant % 2 ? 3 + 4 * b.schemas.size() : 23 - 4 * b.schemas.size());
    b.schemas[id] = {name, enc, data};
    return id;
  };
  for (size_t i = 0; i < kinds.size(); i++) {
    Chan c;
    c.topic = "/topic" + std::to_string(kinds[i] == kCloud2 ? 0 : i);
    c.encoding = "cdr";
    c.metadata = {{"offered_qos_profiles", "- reliability: " + std::to_string(i)}, {"i" + std::to_string(variant % 3), ""}};
    if (variant % 3 == 0) c.metadata.clear();
    switch (kinds[i]) {
      case kCloud:
      case kCloud2: c.schema = schema(kPlain, "ros2msg", "# original\nstd_msgs/Header header\nuint8[] data"); break;
      case kCompressed: c.schema = schema(kPacked, "ros2msg", "# original\nstd_msgs/Header header\nuint8[] compressed_data"); break;
      case kText: c.schema = schema("std_msgs/msg/String", "ros2msg", "string data"); break;
      case kJson: c.schema = 0, c.encoding = "json"; break;
      default: c.schema = schema("foo/msg/Idle", variant % 2 ? "ros2idl" : "ros2msg", std::string("a\0b", 3)); break;
    }
    b.channels[ids[i]] = c;
  }
  if (variant % 4 == 1) b.schemas[100] = {"unused/msg/Type", "protobuf", "xyz"};
  uint32_t n = 0;
  for (int m : msgs) {
    Msg x{ids[m], uint32_t(variant % 13 + n * (variant % 2)), 1000000007ull * (variant % 3 == 2 ? 50 - n : n), 5 + n * 3ull, {}};
    const int tag = variant + int(n);
    switch (kinds[m]) {
      case kCloud:
      case kCloud2: x.data = cdr::write(cloud_message(tag)); break;
      case kCompressed: x.data = packed_message(tag); break;
      default: x.data = Bytes(tag % 4, uint8_t(tag)); break;
    }
    b.messages.push_back(x);
    n++;
  }
  for (int i = 0; i < variant % 3; i++) b.metadata.push_back({i ? "meta" : "rosbag2", {{"serialized_metadata", "x: " + std::to_string(i)}, {"", "e"}}});
  if (variant % 3 == 2) b.metadata.push_back({"meta", {}});
  for (int i = 0; i < variant % 4 - 1; i++) b.attachments.push_back({uint64_t(i), 7, "calibration" + std::to_string(i / 2), "text/yaml", Bytes(i * 5, 'c')});
  return b;
}
// bags that are large in one respect
inline const char* kLarge[] = {"channels", "messages", "fields", "clouds", "names", "records", "numbers"};
inline Bag large_bag(int which, int variant, bool thorough) {
  Bag b = make_bag({kCloud, kText, kCompressed, kJson, kCloud2}, {0, 1, 2, 3, 4, 2, 0}, variant);
  auto of = [&](int kind) {  // channel id of the first channel of a kind
    for (auto& [i, c] : b.channels) {
      const std::string n = c.schema ? b.schemas.at(c.schema).name : "";
      if ((kind == kCloud && n == kPlain) || (kind == kCompressed && n == kPacked) || (kind == kText && n == "std_msgs/msg/String")) return i;
    }
    throw std::logic_error("no such channel");
  };
  const uint16_t plain = of(kCloud), packed = of(kCompressed), text = of(kText);
  auto message = [&](uint16_t ch, Bytes d) { b.messages.push_back({ch, uint32_t(b.messages.size()), 1000 + 7ull * b.messages.size(), 3, std::move(d)}); };
  auto wide = [&](int nf, int rot, uint32_t w, int pk) {
    uint32_t step;
    auto f = layout(wide_kinds(nf, rot, {0, 3, 4, 5, 6, 7, 8, 9}), pk, step, 1.f);
    auto m = cdr::from_layout(rot % 2, "map", 1, w, f, step, make_cloud(w, f, step, rot % 3));
    return cdr::write(m);
  };
  auto pack = [&](const Bytes& raw) {
    auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(raw.data(), raw.size()));
    cloudini_ros::applyResolutionProfile({}, pc.fields, 0.01f);
    Bytes out;
    cloudini_ros::convertPointCloud2ToCompressedCloud(pc, cloudini_ros::toEncodingInfo(pc), out);
    return out;
  };
  switch (which) {
    case 0:
      for (int i = 0; i < (thorough ? 3000 : 400); i++) {
        Chan c = b.channels.at(i % 3 == 0 ? plain : i % 3 == 1 ? packed : text);
        c.topic += "/n" + std::to_string(i);
        const uint16_t id = uint16_t(200 + i * (i % 2 ? 21 : 20) % 65000);
        if (b.channels.count(id)) continue;
        b.channels[id] = c;
        message(id, i % 3 == 0 ? cdr::write(cloud_message(i)) : i % 3 == 1 ? packed_message(i) : Bytes(i % 4, uint8_t(i)));
      }
      break;
    case 1:
      for (int i = 0; i < (thorough ? 70000 : 3000); i++) {
        if (i % 3 == 0) message(plain, cdr::write(cloud_message(i % 40)));
        else if (i % 3 == 1) message(packed, packed_message(i % 40));
        else message(text, Bytes(i % 4, uint8_t(i)));
      }
      break;
    case 2:
      for (int nf : {9, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300}) {
        const Bytes m = wide(nf, variant + nf, 3, nf % 3);
        message(plain, m), message(packed, pack(m));
      }
      break;
    case 3:
      for (uint32_t n : {32767u, 32768u, 32769u, 65535u, 65536u, 65537u, 100000u}) {
        const Bytes m = wide(variant % 4 ? 4 : 11, variant, n, variant % 3);
        message(plain, m), message(text, Bytes(n, 7)), message(packed, pack(m));
        uint32_t step;
        auto f = layout({0, 0, 0, variant % 2 ? 2 : 7}, n % 3, step, 1.f);
        static const char* names[] = {"x", "y", "z", "time"};
        for (int i = 0; i < 4; i++) f[i].name = names[i];
        message(plain, cdr::write(cdr::from_layout(variant % 2, "map", n % 2, n % 2 ? n : 0, f, step, make_cloud(n % 2 ? n : 0, f, step, variant % 3))));
      }
      break;
    case 4:
      for (size_t n : {127, 128, 255, 256, 1000, 65535, 65536, 70000}) {
        const uint16_t id = uint16_t(1000 + b.channels.size());
        Chan c = b.channels.at(n % 2 ? plain : packed);
        c.topic += std::string(n, 't');
        c.metadata["k" + std::string(n, 'k')] = std::string(n, 'v');
        c.encoding = "cdr";
        b.channels[id] = c;
        auto m = cloud_message(5);
        m.frame = std::string(n, 'f');
        for (auto& f : m.fields) f.name += std::string(n, 'n');
        const Bytes raw = cdr::write(m);
        message(id, n % 2 ? raw : pack(raw));
        const uint16_t sid = uint16_t(500 + b.schemas.size());
        b.schemas[sid] = {"x/msg/" + std::string(n, 'S'), "ros2msg" + std::string(n % 300, 'e'), std::string(n, 's')};
        b.channels[uint16_t(id + 20000)] = {"/long" + std::to_string(n), "cdr", sid, {}};
        message(uint16_t(id + 20000), Bytes(n, 9));
      }
      break;
    case 5:
      for (int i = 0; i < 300; i++) {
        b.metadata.push_back({"m" + std::to_string(i / 2), {{std::string(i, 'k'), std::string(i * 3, 'v')}}});
        b.attachments.push_back({uint64_t(i) << (i % 60), uint64_t(300 - i), "a" + std::to_string(i / 3), std::string(i % 40, 't'), Bytes(i * 11, uint8_t(i))});
      }
      for (size_t n : {65535, 65536, 300000, 5000000}) b.attachments.push_back({1, 2, "big", "application/octet-stream", Bytes(n, 1)});
      break;
    case 6:
      for (int k = 0; k < 63; k++) {
        b.messages.push_back({k % 3 == 0 ? plain : k % 3 == 1 ? packed : text, uint32_t((1ull << (k % 33)) - 1), (1ull << k) + k % 2, (~0ull >> k) - k, k % 3 == 0 ? cdr::write(cloud_message(k)) : k % 3 == 1 ? packed_message(k) : Bytes(3, uint8_t(k))});
      }
      break;
  }
  return b;
}
}  // namespace bag
