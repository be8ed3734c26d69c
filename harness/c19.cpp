// C19: PCL clouds and PCD files.
#include <pcl/console/print.h>
#include <pcl/io/pcd_io.h>
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>

#include <fstream>
#include <iostream>
#include <sstream>

#include "cloudini_lib/pcl_conversion.hpp"
#include "gen.hpp"
#include "ref.hpp"
using namespace cl;

static uint8_t pcl_type(FT t) {
  switch (t) {
    case FT::INT8: return pcl::PCLPointField::INT8;
    case FT::UINT8: return pcl::PCLPointField::UINT8;
    case FT::INT16: return pcl::PCLPointField::INT16;
    case FT::UINT16: return pcl::PCLPointField::UINT16;
    case FT::INT32: return pcl::PCLPointField::INT32;
    case FT::UINT32: return pcl::PCLPointField::UINT32;
    case FT::INT64: return pcl::PCLPointField::INT64;
    case FT::UINT64: return pcl::PCLPointField::UINT64;
    case FT::FLOAT32: return pcl::PCLPointField::FLOAT32;
    default: return pcl::PCLPointField::FLOAT64;
  }
}
static Config of(const EncodingInfo& i) { return {(int)i.version, i.encoding_opt, i.compression_opt, false}; }

// ---- (1) generic clouds ----
static pcl::PCLPointCloud2 g_reused;
static void compare_generic(const pcl::PCLPointCloud2& o, const EncodingInfo& info, const Bytes& cloud, const char* what, int fill) {
  if (o.width != info.width || o.height != info.height || o.point_step != info.point_step || o.row_step != info.width * info.point_step) vh::fail("dims", "%s: dimensions differ", what);
  if (o.fields.size() != info.fields.size()) vh::fail("fields", "%s: %zu fields instead of %zu", what, o.fields.size(), info.fields.size());
  for (size_t i = 0; i < o.fields.size(); i++)
    if (o.fields[i].name != info.fields[i].name || o.fields[i].offset != info.fields[i].offset || o.fields[i].datatype != pcl_type(info.fields[i].type) || o.fields[i].count != 1)
      vh::fail("fields", "%s: field %zu differs", what, i);
  Bytes got(o.data.begin(), o.data.end());
  if (got.size() != cloud.size()) vh::fail("size", "%s: %zu bytes of data instead of %zu", what, got.size(), cloud.size());
  if (fill < 0) {  // ignore padding
    for (size_t p = 0; info.point_step && p < cloud.size() / info.point_step; p++)
      for (size_t k = 0; k < info.point_step; k++) {
        bool used = false;
        for (auto& f : info.fields) used |= k >= f.offset && k < f.offset + size_of(f.type);
        if (!used) got[p * info.point_step + k] = 0;
      }
    fill = 0;
  }
  check_cloud(of(info), info, cloud, got, uint8_t(fill), what);
}
static void generic(const std::vector<int>& kinds, int packing, uint32_t h, uint32_t w, double res, int style, uint32_t shift = 0, size_t longer = 0) {
  uint32_t step;
  auto f = layout(kinds, packing, step, 1.f);
  for (auto& x : f) x.offset += shift, x.name += std::string(longer, 'n');
  step += shift;
  const Bytes cloud = make_cloud(size_t(h) * w, f, step, style);
  pcl::PCLPointCloud2 pc;
  pc.width = w;
  pc.height = h;
  pc.point_step = step;
  pc.row_step = step * w;
  pc.data.assign(cloud.begin(), cloud.end());
  for (auto& x : f) {
    pcl::PCLPointField q;
    q.name = x.name;
    q.offset = x.offset;
    q.datatype = pcl_type(x.type);
    q.count = 1;
    pc.fields.push_back(q);
  }
  EncodingInfo want = EncodingInfo();
  want.width = w;
  want.height = h;
  want.point_step = step;
  want.fields = f;
  for (auto& x : want.fields) {
    x.resolution.reset();
    if (x.type == FT::FLOAT32 && res > 0) x.resolution = float(res);
  }
  auto info = ConvertToEncodingInfo(pc, res);
  if (info.width != w || info.height != h || info.point_step != step || info.fields != want.fields) vh::fail("describe", "ConvertToEncodingInfo: wrong description for resolution %g", res);
  std::vector<uint8_t> z;
  size_t n = PCLPointCloudEncode(pc, z, res);
  vh::transition(2);
  if (n != z.size()) vh::fail("size-return", "PCLPointCloudEncode returns %zu, the vector holds %zu bytes", n, z.size());
  {
    auto d = dec_full(z);
    if (d.info.fields != want.fields || d.info.width != w || d.info.height != h) vh::fail("stream", "header of the stream is wrong");
    check_cloud(of(info), want, cloud, d.data, 0xCD, "stream");
  }
  pcl::PCLPointCloud2 fresh;
  PCLPointCloudDecode(ConstBufferView(z.data(), z.size()), fresh);
  compare_generic(fresh, want, cloud, "decoded cloud", 0);
  PCLPointCloudDecode(ConstBufferView(z.data(), z.size()), g_reused);
  compare_generic(g_reused, want, cloud, "decoded into a used cloud", -1);
  vh::state_bytes(z.data(), z.size());
  vh::validated(2);
}

// ---- (2) point types ----
template <class P>
struct Dst;
template <>
struct Dst<pcl::PointXYZ> {
  static constexpr int n = 3;
};
template <>
struct Dst<pcl::PointXYZI> {
  static constexpr int n = 4;
};
static float& member(pcl::PointXYZ& p, const std::string& s) { return s == "x" ? p.x : s == "y" ? p.y : p.z; }
static float& member(pcl::PointXYZI& p, const std::string& s) { return s == "x" ? p.x : s == "y" ? p.y : s == "z" ? p.z : p.intensity; }
static bool has(const pcl::PointXYZ*, const std::string& s) { return s == "x" || s == "y" || s == "z"; }
static bool has(const pcl::PointXYZI*, const std::string& s) { return s == "x" || s == "y" || s == "z" || s == "intensity"; }

template <class P>
static void decode_into(const Bytes& z, const EncodingInfo& info, const Bytes& cloud, bool reuse, const char* what) {
  pcl::PointCloud<P> pc;
  const size_t n = size_t(info.width) * info.height;
  Bytes before(sizeof(P));
  if (reuse) {  // a cloud that holds other points
    pc.points.resize(n + 3);
    for (auto& p : pc.points) memset((void*)&p, 0x3C, sizeof p);
  }
  PointcloudDecode(ConstBufferView(z.data(), z.size()), pc);
  vh::transition();
  if (pc.width != info.width || pc.height != info.height || pc.points.size() != n) vh::fail("dims", "%s: %ux%u with %zu points", what, pc.width, pc.height, pc.points.size());
  P ref;
  if (reuse) memset((void*)&ref, 0x3C, sizeof ref);
  const Config c = of(info);
  size_t lead = 0;
  if (leading_triple(info))
    while (lead < info.fields.size() && lead < 4 && info.fields[lead].type == FT::FLOAT32 && info.fields[lead].resolution) lead++;
  for (size_t p = 0; p < n; p++) {
    P got = pc.points[p];
    for (size_t i = 0; i < info.fields.size(); i++) {
      auto& f = info.fields[i];
      if (!has((P*)nullptr, f.name)) continue;
      std::string e = check_field(i < lead ? FieldLaw::LossyVec : law(c, f), f, &cloud[p * info.point_step + f.offset], (uint8_t*)&member(got, f.name));
      if (!e.empty()) vh::fail("point", "%s: point %zu of %zu: %s", what, p, n, e.c_str());
      member(got, f.name) = member(ref, f.name);
    }
    if (memcmp(&got, &ref, sizeof(P)) != 0) vh::fail("other-members", "%s: point %zu: a member that the source does not have was written", what, p);
  }
  vh::validated();
}
template <class P>
static void typed(uint32_t h, uint32_t w, double res, int style) {
  pcl::PointCloud<P> pc;
  pc.width = w;
  pc.height = h;
  std::vector<PointField> f{{"x", 0, FT::FLOAT32, float(res)}, {"y", 4, FT::FLOAT32, float(res)}, {"z", 8, FT::FLOAT32, float(res)}};
  if (Dst<P>::n == 4) f.push_back({"intensity", 16, FT::FLOAT32, {}});
  const Bytes cloud0 = make_cloud(size_t(h) * w, f, sizeof(P), style);
  for (size_t p = 0; p < size_t(h) * w; p++) {
    P q;
    for (auto& x : f) memcpy(&member(q, x.name), &cloud0[p * sizeof(P) + x.offset], 4);
    pc.points.push_back(q);
  }
  const Bytes cloud((const uint8_t*)pc.points.data(), (const uint8_t*)pc.points.data() + pc.points.size() * sizeof(P));
  EncodingInfo want;
  want.width = w, want.height = h, want.point_step = sizeof(P), want.fields = f;
  auto info = ConvertToEncodingInfo<P>(pc, res);
  if (info.width != w || info.height != h || info.point_step != sizeof(P) || info.fields != f) vh::fail("describe", "ConvertToEncodingInfo<PointT>: wrong description");
  std::vector<uint8_t> z;
  size_t n = PointcloudEncode(pc, z, res);
  if (n != z.size()) vh::fail("size-return", "PointcloudEncode returns %zu, the vector holds %zu bytes", n, z.size());
  auto d = dec_full(z);
  if (d.info.fields != f || d.info.width != w || d.info.height != h) vh::fail("stream", "header of the stream is wrong");
  check_cloud(of(want), want, cloud, d.data, 0xCD, "typed stream");
  for (int reuse = 0; reuse < 2; reuse++) {
    decode_into<pcl::PointXYZ>(z, want, cloud, reuse, "typed to XYZ");
    decode_into<pcl::PointXYZI>(z, want, cloud, reuse, "typed to XYZI");
  }
}

// ---- (3) PCD headers ----
static std::string pname(size_t i) { return i < 11 ? std::string(1, char('p' + i)) : vh::fmt("long_name_%zu", i); }
static std::map<std::string, FT> parse(const std::string& s) {
  std::istringstream st(s);
  auto m = ReadEncodingInfoFromPCD(st);
  vh::transition();
  return {m.begin(), m.end()};
}
static const char kT[] = {'I', 'U', 'I', 'U', 'I', 'U', 'F', 'F', 'I', 'U'};  // in the order of kAllTypes
static std::string pcd_header(const std::vector<FT>& t, int style, uint32_t w, uint32_t h, const char* data) {
  const char* eol = style & 1 ? "\r\n" : "\n";
  const char* sep = (style >> 1 & 3) == 0 ? " " : (style >> 1 & 3) == 1 ? "  " : (style >> 1 & 3) == 2 ? "\t" : " \t ";
  const char* end = style & 8 ? " " : "";
  std::string s;
  if (style & 16) s += std::string("# .PCD v0.7 - Point Cloud Data file format") + eol;
  s += std::string("VERSION 0.7") + eol;
  if (style & 32) s += std::string("# a comment with FIELDS q r s") + eol;
  std::string names = "FIELDS", sizes = "SIZE", types = "TYPE", counts = "COUNT";
  for (size_t i = 0; i < t.size(); i++) {
    names += sep + pname(i);
    sizes += sep + vh::fmt("%d", size_of(t[i]));
    char ty = t[i] == FT::FLOAT32 || t[i] == FT::FLOAT64 ? 'F' : (t[i] == FT::INT8 || t[i] == FT::INT16 || t[i] == FT::INT32 || t[i] == FT::INT64) ? 'I' : 'U';
    types += sep + std::string(1, ty);
    counts += std::string(sep) + "1";
  }
  for (auto* l : {&names, &sizes, &types, &counts}) {
    s += *l + (style & 128 ? " # r s t" : "") + end + eol;
    if (style & 64) s += std::string("#") + eol;
  }
  s += vh::fmt("WIDTH%s%u%s%s", sep, w, end, eol) + vh::fmt("HEIGHT%s%u%s%s", sep, h, end, eol) + std::string("VIEWPOINT 0 0 0 1 0 0 0") + eol + vh::fmt("POINTS %u%s", w * h, eol) + "DATA " + data + eol;
  return s;
}
static void header_case(const std::vector<FT>& t, int style) {
  std::map<std::string, FT> want;
  for (size_t i = 0; i < t.size(); i++) want[pname(i)] = t[i];
  std::string s = pcd_header(t, style, 1, 1, "ascii");
  std::map<std::string, FT> got;
  try {
    got = parse(s + "FIELDS a b\n1 2 3\n");  // what follows DATA is no header any more
  } catch (const std::exception& e) {
    vh::fail("pcd-header", "a legal PCD header is rejected (%s): %s", e.what(), s.c_str());
  }
  if (got != want) vh::fail("pcd-header", "the types of the fields are wrong for the header %s", s.c_str());
  vh::validated();
}
static void number(std::string& s, const uint8_t* p, FT t) {
  char b[64];
  double d;
  float f;
  int64_t i = 0;
  uint64_t u = 0;
  switch (t) {
    case FT::FLOAT32: memcpy(&f, p, 4); snprintf(b, 64, std::isnan(f) ? "nan" : "%.9g", f); break;
    case FT::FLOAT64: memcpy(&d, p, 8); snprintf(b, 64, std::isnan(d) ? "nan" : "%.17g", d); break;
    case FT::INT8: snprintf(b, 64, "%d", *(const int8_t*)p); break;
    case FT::UINT8: snprintf(b, 64, "%d", *p); break;
    case FT::INT16: { int16_t x; memcpy(&x, p, 2); snprintf(b, 64, "%d", x); break; }
    case FT::UINT16: { uint16_t x; memcpy(&x, p, 2); snprintf(b, 64, "%d", x); break; }
    case FT::INT32: { int32_t x; memcpy(&x, p, 4); snprintf(b, 64, "%d", x); break; }
    case FT::UINT32: { uint32_t x; memcpy(&x, p, 4); snprintf(b, 64, "%u", x); break; }
    case FT::INT64: memcpy(&i, p, 8); snprintf(b, 64, "%lld", (long long)i); break;
    default: memcpy(&u, p, 8); snprintf(b, 64, "%llu", (unsigned long long)u); break;
  }
  s += b;
}
static void file_case(const std::vector<FT>& t, int style, bool binary, uint32_t h, uint32_t w, double res, int content) {
  std::vector<PointField> f;
  uint32_t step = 0;
  for (size_t i = 0; i < t.size(); i++) {
    f.push_back({pname(i), step, t[i], {}});
    step += size_of(t[i]);
  }
  Bytes cloud = make_cloud(size_t(h) * w, f, step, content);
  std::string s = pcd_header(t, style, w, h, binary ? "binary" : "ascii");
  if (binary) s.append((const char*)cloud.data(), cloud.size());
  else
    for (size_t p = 0; p < size_t(h) * w; p++) {
      for (auto& x : f) {
        if (&x != &f[0]) s += " ";
        number(s, &cloud[p * step + x.offset], x.type);
      }
      s += "\n";
    }
  const std::string path = vh::fmt("./c19_%d.pcd", (int)getpid());
  {
    std::ofstream o(path, std::ios::binary);
    o << s;
  }
  EncodingInfo want;
  want.width = w, want.height = h, want.point_step = step, want.fields = f;
  for (auto& x : want.fields)
    if (x.type == FT::FLOAT32 && res > 0) x.resolution = float(res);
  std::vector<uint8_t> z;
  try {
    PCLPointCloudEncode(std::filesystem::path(path), z, res);
  } catch (const std::exception& e) {
    unlink(path.c_str());
    vh::fail("pcd-file", "a legal PCD file cannot be encoded (%s): %s", e.what(), s.substr(0, 200).c_str());
  }
  unlink(path.c_str());
  vh::transition();
  auto d = dec_full(z);
  if (d.info.width != w || d.info.height != h || d.info.point_step != step || d.info.fields != want.fields) vh::fail("pcd-file", "the description of the encoded file is wrong: %s", s.substr(0, 200).c_str());
  check_cloud(of(want), want, cloud, d.data, 0xCD, "PCD file");
  pcl::PCLPointCloud2 o;
  PCLPointCloudDecode(ConstBufferView(z.data(), z.size()), o);
  compare_generic(o, want, cloud, "decoded PCD file", 0);
  vh::state_bytes(z.data(), z.size());
  vh::validated();
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  const bool T = vh::thorough();
  std::cout.setstate(std::ios::failbit);
  pcl::console::setVerbosityLevel(pcl::console::L_ALWAYS);
  static const std::pair<uint32_t, uint32_t> dims[] = {{1, 0}, {1, 1}, {1, 3}, {3, 1}, {4, 5}, {1, 300}};
  // all lists of up to 3 types (kinds without 64-bit integers, which PCL < 1.12 does not know)
  static const int pk[] = {0, 3, 4, 5, 6, 7, 8, 9};
  all_sequences(8, 1, 3, [&](const std::vector<int>& s) {
    std::vector<int> k;
    for (int i : s) k.push_back(pk[i]);
    vh::run_case_l([&] { return "generic/" + lname(k); }, [&] {
      for (int packing = 0; packing < 3; packing++)
        for (auto [h, w] : dims) {
          if (w == 300 && k.size() == 3 && !T) continue;
          for (double res : {0.25, 0.001, 0.0, -1.0}) generic(k, packing, h, w, res, int(w + packing) % 3);
        }
    });
  });
  for (int n = 4; n <= 6; n++)
    for (int last : pk)
      vh::run_case_l([&] { return vh::fmt("generic/lead%d+%d", n, last); }, [&] {
        std::vector<int> k(n, 0);
        for (int pos = 0; pos < n; pos++) {
          auto q = k;
          q[pos] = last;
          for (auto [h, w] : dims)
            for (double res : {0.25, 0.0}) generic(q, pos % 3, h, w, res, pos % 3);
        }
      });
  vh::run_case("generic/chunks", [&] {
    for (uint32_t n : {32767u, 32768u, 32769u, 65537u})
      for (double res : {0.25, 0.0}) generic({0, 0, 0, 7, 3}, 0, 1, n, res, int(n % 3));
  });
  // many fields, far offsets
  for (int nf : wide_counts(T))
    vh::run_case(vh::fmt("generic/wide/%d", nf), [&] {
      for (int rot = 0; rot < 8; rot++)
        for (auto [h, w] : dims) generic(wide_kinds(nf, rot, {std::begin(pk), std::end(pk)}), rot % 3, h, w, rot & 1 ? 0.25 : 0.0, rot % 3);
      std::vector<FT> t;
      for (int i = 0; i < nf; i++) t.push_back(kAllTypes[i * 7 % 10]);
      for (int st = 0; st < 256; st += 5) header_case(t, st);
      for (int binary = 0; binary < 2; binary++)
        for (double res : {0.25, 0.0}) file_case(t, nf % 128, binary, 1, 4, res, nf % 3);
      vh::beat();
    });
  vh::run_case("generic/far", [&] { 
    for (uint32_t at : {250u, 256u, 32760u, 32768u, 65528u, 65535u, 65536u})
      for (int k : pk) generic({k, 0, k}, 0, 1, 2, 0.25, 0, at);
    for (size_t n : {6, 7, 8, 14, 15, 16, 30, 31, 32, 62, 63, 64, 126, 127, 128, 254, 255, 256, 1000, 65535, 65536})
      for (int k : pk) generic({k, 0, k}, 0, 1, 2, 0.25, 0, 0, n);
  });
  for (int style = 0; style < 3; style++)
    vh::run_case(vh::fmt("typed/%d", style), [&] {
      for (uint32_t h : {0u, 1u, 2u, 7u})
        for (uint32_t w : {0u, 1u, 2u, 3u, 50u, 5000u})
          for (double res : {0.25, 0.001, 10.0}) {
            typed<pcl::PointXYZ>(h, w, res, style);
            typed<pcl::PointXYZI>(h, w, res, style);
          }
      vh::beat();
      for (uint32_t w : {32768u, 32769u, 70000u}) {
        typed<pcl::PointXYZ>(1, w, 0.01, style);
        typed<pcl::PointXYZI>(1, w, 0.01, style);
      }
    });
  // sources with other fields in any order
  struct Src {
    const char* name;
    FT t;
    bool res;
  };
  static const Src src[] = {{"x", FT::FLOAT32, true}, {"y", FT::FLOAT32, true}, {"z", FT::FLOAT32, true}, {"intensity", FT::FLOAT32, false}, {"ring", FT::UINT16, false}, {"t", FT::FLOAT64, false}, {"normal_x", FT::FLOAT32, true}, {"rgb", FT::UINT32, false}};
  const auto configs = all_configs({3, 4, 5}, false);
  for (int len = 1; len <= 5; len++)
    for (int a = 0; a < 8; a++)
      for (int b = 0; b < (len > 1 ? 8 : 1); b++) {
        if (len > 1 && a == b) continue;
        vh::run_case_l([&] { return vh::fmt("source/%d/%s/%s", len, src[a].name, len > 1 ? src[b].name : "-"); }, [&] {
          size_t cnt = 0;
          vh::odometer(std::vector<int>(std::max(0, len - 2), 8), [&](const std::vector<int>& d) {
            std::vector<int> k{a};
            if (len > 1) k.push_back(b);
            k.insert(k.end(), d.begin(), d.end());
            for (size_t i = 0; i < k.size(); i++)
              for (size_t j = 0; j < i; j++)
                if (k[i] == k[j]) return;
            for (int pat = 0; pat < 4; pat++) {
              cnt++;
              if (len == 5 && !T && cnt % 3) continue;
              std::vector<PointField> f;
              uint32_t off = pat == 1 ? 3 : 0;
              for (int i : k) {
                f.push_back({src[i].name, off, src[i].t, {}});
                if (src[i].t == FT::FLOAT32 && pat != 2) f.back().resolution = pat == 3 ? (src[i].res ? std::optional<float>(0.5f) : std::nullopt) : std::optional<float>(0.25f);
                off += size_of(src[i].t) + (pat == 1 ? 1 : 0);
              }
              const Config& c = configs[(cnt * 5 + k[0]) % configs.size()];
              const uint32_t pts = cnt % 4 == 0 ? 33 : cnt % 4 == 1 ? 1 : 4;
              auto info = make_info(c, f, off, pts);
              const Bytes cloud = make_cloud(pts, f, off, int(cnt % 3));
              const Bytes z = enc_fresh(info, cloud);
              const std::string what = vh::fmt("%s, source fields %s", c.str().c_str(), [&] {
                                                   std::string s;
                                                   for (auto& x : f) s += x.name + (x.resolution ? "* " : " ");
                                                   return s;
                                                 }().c_str());
              decode_into<pcl::PointXYZ>(z, info, cloud, cnt & 1, (what + "to XYZ").c_str());
              decode_into<pcl::PointXYZI>(z, info, cloud, cnt & 1, (what + "to XYZI").c_str());
            }
          });
          vh::beat();
        });
      }
  // a common field of another type is refused
  vh::run_case("mismatch", [&] {
    for (auto t : kAllTypes)
      for (auto* nm : {"x", "y", "z", "intensity"}) {
        std::vector<PointField> f{{nm, 0, t, {}}, {"other", 8, FT::FLOAT32, {}}};
        auto info = make_info(Config{}, f, 12, 2);
        const Bytes z = enc_fresh(info, make_cloud(2, f, 12, 1));
        for (int k = 0; k < 2; k++) {
          bool threw = false;
          try {
            if (k) {
              pcl::PointCloud<pcl::PointXYZ> p;
              PointcloudDecode(ConstBufferView(z.data(), z.size()), p);
            } else {
              pcl::PointCloud<pcl::PointXYZI> p;
              PointcloudDecode(ConstBufferView(z.data(), z.size()), p);
            }
          } catch (const std::exception&) {
            threw = true;
          }
          vh::transition();
          const bool common = !(k && std::string(nm) == "intensity");
          if (threw != (common && t != FT::FLOAT32)) vh::fail("mismatch", "field %s of type %s: %s", nm, tname(t), threw ? "refused" : "accepted");
          vh::validated();
        }
      }
  });
  // PCD headers in every spelling
  for (int style = 0; style < 256; style++)
    vh::run_case_l([&] { return vh::fmt("pcd-header/%d", style); }, [&] {
      all_sequences(10, 1, T ? 4 : 3, [&](const std::vector<int>& d) {
        std::vector<FT> t;
        for (int i : d) t.push_back(kAllTypes[i]);
        header_case(t, style);
      });
    });
  vh::run_case("pcd-header/bad", [&] {
    for (const char* s : {"FIELDS x y\nSIZE 4\nTYPE F F\nDATA ascii\n", "FIELDS x\nSIZE 4 4\nTYPE F\nDATA ascii\n", "FIELDS x y\nSIZE 4 4\nTYPE F\nDATA ascii\n", "SIZE 4\nTYPE F\nDATA ascii\n", "FIELDS x\nDATA ascii\n", "FIELDS x\nSIZE q\nTYPE F\nDATA ascii\n"}) {
      bool threw = false;
      try {
        parse(s);
      } catch (const std::exception&) {
        threw = true;
      }
      if (!threw) vh::fail("pcd-bad", "a malformed header is accepted: %s", s);
      vh::validated();
    }
  });
  // PCD files
  for (int binary = 0; binary < 2; binary++)
    for (int a = 0; a < 10; a++)
      for (int b = 0; b < 10; b++)
        vh::run_case_l([&] { return vh::fmt("pcd-file/%s/%s/%s", binary ? "binary" : "ascii", tname(kAllTypes[a]), tname(kAllTypes[b])); }, [&] {
          int cnt = a * 7 + b;
          for (auto [h, w] : {std::pair<uint32_t, uint32_t>{1, 1}, {1, 4}, {3, 2}, {1, 120}})
            for (double res : {0.25, 0.0})
              for (int content = 0; content < 3; content++) {
                cnt++;
                file_case({kAllTypes[a], kAllTypes[b]}, cnt * 37 % 128, binary, h, w, res, content);
                file_case({FT::FLOAT32, FT::FLOAT32, FT::FLOAT32, kAllTypes[a], kAllTypes[b]}, cnt * 53 % 128, binary, h, w, res, content);
              }
        });
  return vh::finish();
}
