// C11: decoding any bytes is memory safe, terminates, and needs memory in proportion to input and declared output.
// Built with AddressSanitizer and UndefinedBehaviorSanitizer; inputs and outputs live in heap blocks of exactly their size.
#include <malloc.h>
#include <sys/resource.h>

#include <atomic>
#include <new>

#include "cloudini_lib/ros_msg_utils.hpp"
#include "gen.hpp"
#include "ref.hpp"
using namespace cl;

// ---- accounting of the memory that the code under test allocates ----
static std::atomic<size_t> g_cur{0}, g_peak{0};
static void* take(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  size_t c = g_cur += malloc_usable_size(p);
  if (c > g_peak) g_peak = c;
  return p;
}
static void give(void* p) {
  if (p) {
    g_cur -= malloc_usable_size(p);
    free(p);
  }
}
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }

static double cpu_now() {
  timespec t;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
// Runs one call of the code under test: any std::exception is fine; memory stays below `allow`, time below a generous constant.
template <class Fn>
static bool guarded(const char* what, size_t allow, Fn&& fn) {
  size_t base = g_cur;
  g_peak = base;
  double t0 = cpu_now();
  bool ok = false;
  try {
    fn();
    ok = true;
  } catch (const vh::Fail&) {
    throw;
  } catch (const std::exception&) {
  } catch (...) {
    vh::fail("foreign-exception", "%s: an exception not derived from std::exception was thrown", what);
  }
  double dt = cpu_now() - t0;
  size_t used = g_peak - base;
  vh::transition();
  vh::beat();
  if (used > allow) vh::fail("memory", "%s: %zu bytes were allocated, expected at most %zu", what, used, allow);
  if (dt > 10) vh::fail("time", "%s: %.1f s for a small input", what, dt);
  auto& m = vh::g().extra["max_alloc_bytes"];
  m = std::max<uint64_t>(m, used);
  return ok;
}
struct Exact {  // heap copy of exactly n bytes: red zones on both sides
  uint8_t* p;
  size_t n;
  explicit Exact(const Bytes& b) : p((uint8_t*)malloc(b.size())), n(b.size()) {
    if (n) memcpy(p, b.data(), n);
  }
  explicit Exact(size_t m) : p((uint8_t*)malloc(m)), n(m) { memset(p, 0xEE, n); }
  ~Exact() { free(p); }
  Exact(const Exact&) = delete;
};

static void try_decode(const EncodingInfo& info, const Bytes& payload, size_t outsize, PointcloudDecoder* reuse = nullptr) {
  Exact in(payload), out(outsize);
  size_t pts = info.point_step ? outsize / info.point_step : 0;
  size_t allow = (1 << 20) + 64 * (payload.size() + outsize) + 160 * (pts + 1) * (info.fields.size() + 1) + 1024 * info.fields.size();
  bool ok = guarded("decode", allow, [&] {
    PointcloudDecoder fresh;
    (reuse ? *reuse : fresh).decode(info, ConstBufferView(in.p, in.n), BufferView(out.p, out.n));
  });
  vh::outcome(ok ? "decoded" : "refused");
  vh::state_bytes(out.p, out.n);
  vh::validated();
}
// header + payload, as an application would do it
static void try_full(const Bytes& msg, size_t maxout = 1 << 20) {
  Exact in(msg);
  ConstBufferView v(in.p, in.n);
  EncodingInfo info;
  bool ok = guarded("DecodeHeader", (1 << 17) + 256 * msg.size(), [&] { info = DecodeHeader(v); });
  vh::outcome(ok ? "header read" : "header refused");
  vh::validated();
  if (!ok) return;
  if (v.data() < in.p || v.data() + v.size() != in.p + in.n) vh::fail("view", "DecodeHeader left a view outside of the input");
  size_t n = size_t(info.width) * info.height;
  if (info.point_step && n > maxout / info.point_step) n = maxout / info.point_step;
  n *= info.point_step;
  Bytes rest(v.data(), v.data() + v.size());
  try_decode(info, rest, std::min(n, maxout));
  if (n <= 4096 && size_t(info.width) * info.height * info.point_step <= 4096) {
    Exact r(rest);
    std::vector<uint8_t> o;
    guarded("decode(vector)", (1 << 20) + 64 * (rest.size() + n) + 160 * (n + 1) * (info.fields.size() + 1) + 1024 * info.fields.size(), [&] {
      PointcloudDecoder d;
      d.decode(info, ConstBufferView(r.p, r.n), o);
    });
  }
}

// all interesting ways to damage one message
template <class Fn>
static void mutations(const Bytes& good, bool allvals, Fn&& fn) {
  for (size_t n = 0; n < good.size(); n++) fn(Bytes(good.begin(), good.begin() + n));
  for (size_t i = 0; i < good.size(); i++) {
    std::set<uint8_t> vals;
    if (allvals)
      for (int v = 0; v < 256; v++) vals.insert(v);
    else
      for (int v : {0x00, 0x01, 0x02, 0x03, 0x7f, 0x80, 0xfe, 0xff, good[i] ^ 1, good[i] ^ 0x80, good[i] + 1, good[i] - 1}) vals.insert(uint8_t(v));
    vals.erase(good[i]);
    for (uint8_t v : vals) {
      Bytes b = good;
      b[i] = v;
      fn(b);
    }
    Bytes d = good;
    d.erase(d.begin() + i);
    fn(d);
    for (uint8_t v : {0x00, 0x80, 0xff}) {
      Bytes s = good;
      s.insert(s.begin() + i, v);
      fn(s);
    }
  }
  Bytes e = good;
  e.insert(e.end(), good.begin(), good.end());
  fn(e);
}

// ---- an independent writer of serialized ROS messages ----
struct Cdr {
  Bytes b;
  bool big;
  explicit Cdr(bool be) : big(be) { b = {0, uint8_t(be ? 0 : 1), 0, 0}; }
  void u(uint64_t v, int n) {
    while ((b.size() - 4) % n) b.push_back(0);
    for (int i = 0; i < n; i++) b.push_back(uint8_t(v >> 8 * (big ? n - 1 - i : i)));
  }
  void s(const std::string& x) {
    u(x.size() + 1, 4);
    b.insert(b.end(), x.begin(), x.end());
    b.push_back(0);
  }
  void blob(const Bytes& x) {
    u(x.size(), 4);
    b.insert(b.end(), x.begin(), x.end());
  }
};
static Bytes ros_msg(bool be, const std::string& frame, uint32_t h, uint32_t w, const std::vector<PointField>& f, uint32_t step, const Bytes& data, bool compressed) {
  Cdr c(be);
  c.u(12, 4);
  c.u(34, 4);
  c.s(frame);
  c.u(h, 4);
  c.u(w, 4);
  c.u(f.size(), 4);
  for (auto& x : f) {
    c.s(x.name);
    c.u(x.offset, 4);
    c.u(uint8_t(x.type), 1);
    c.u(1, 4);
  }
  c.u(0, 1);
  c.u(step, 4);
  c.u(step * w, 4);
  c.blob(data);
  c.u(1, 1);
  if (compressed) c.s("cloudini");
  return c.b;
}
static void try_ros(const Bytes& msg) {
  Exact in(msg);
  cloudini_ros::RosPointCloud2 pc;
  bool ok = guarded("getDeserializedPointCloudMessage", (1 << 17) + 64 * msg.size(), [&] { pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(in.p, in.n)); });
  vh::outcome(ok ? "message read" : "message refused");
  vh::validated();
  if (!ok) return;
  if (!pc.data.empty() && (pc.data.data() < in.p || pc.data.data() + pc.data.size() > in.p + in.n)) vh::fail("view", "the data of a message is outside of the input");
  const uint64_t declared = uint64_t(uint32_t(pc.width * pc.height)) * pc.point_step;
  const uint32_t declared32 = pc.width * pc.height * pc.point_step;
  if (declared < (1 << 20) && declared32 < (1 << 20)) {
    std::vector<uint8_t> out;
    guarded("convertCompressedCloudToPointCloud2", (1 << 18) + 256 * (msg.size() + declared + declared32) * (1 + pc.fields.size()), [&] { cloudini_ros::convertCompressedCloudToPointCloud2(pc, out); });
  }
  std::vector<uint8_t> out;
  guarded("convertPointCloud2ToCompressedCloud", (8 << 20) + 4096 * (msg.size() + pc.fields.size()), [&] {
    auto info = cloudini_ros::toEncodingInfo(pc);
    info.use_threads = false;
    for (auto& f : info.fields)
      if (f.type == FT::FLOAT32) f.resolution = 0.01f;
    cloudini_ros::convertPointCloud2ToCompressedCloud(pc, info, out);
  });
  guarded("applyResolutionProfile, applyVizLossyPreprocessing", (1 << 18) + 4096 * (msg.size() + pc.fields.size()), [&] {
    cloudini_ros::RosPointCloud2 c = pc;
    cloudini_ros::applyResolutionProfile({{"b", 0.5f}}, c.fields, 0.01f);
    cloudini_ros::applyVizLossyPreprocessing(c);
    if (c.data.size() > pc.data.size()) vh::fail("grown", "preprocessing made the cloud larger");
  });
}

// ---- the enumerated spaces ----
static const std::vector<std::vector<int>> kLay{{5}, {6}, {8}, {11}, {0}, {0, 0, 0}, {0, 0, 0, 0}, {1}, {3}, {2}, {6, 9}, {3, 3}, {0, 0, 0, 6, 4}, {10, 3, 7}};
struct Case {
  Config c;
  std::vector<int> k;
  EncodingInfo info(size_t pts, int packing = 0) const {
    uint32_t step;
    auto f = layout(k, packing, step, 0.25f);
    return make_info(c, f, step, (uint32_t)pts);
  }
  std::string str() const { return c.str() + "/" + lname(k); }
};
static std::vector<Case> cases() {
  std::vector<Case> r;
  for (auto& c : all_configs({2, 3, 4, 5}, false))
    for (auto& k : kLay) r.push_back({c, k});
  return r;
}
static Bytes framed(const EncodingInfo& i, const Bytes& stage1) {
  Bytes p;
  if (i.version >= 3) ref::put_u(p, stage1.size(), 4);
  p.insert(p.end(), stage1.begin(), stage1.end());
  return p;
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  const bool T = vh::thorough();
  const auto cs = cases();

  // (a) stage-1 data: all short byte strings
  static const uint8_t crit[] = {0x00, 0x01, 0x02, 0x03, 0x7f, 0x80, 0xff};
  for (auto& x : cs) {
    if (x.c.comp != CompressionOption::NONE) continue;
    bool adaptive = ref::v5(x.info(2));
    vh::run_case("stage1/short/" + x.str(), [&] {
      PointcloudDecoder dec;
      for (size_t pts : {1, 2, 5}) {
        auto info = x.info(pts);
        auto feed = [&](const Bytes& s) { try_decode(info, framed(info, s), pts * info.point_step, &dec); };
        feed({});
        for (int a = 0; a < 256; a++) {
          feed({uint8_t(a)});
          if (pts == 2 || T)
            for (int b = 0; b < 256; b += (T ? 1 : b < 4 || b > 250 ? 1 : 31)) feed({uint8_t(a), uint8_t(b)});
        }
      }
    });
    for (int first = 0; first < 7; first++)
      vh::run_case(vh::fmt("stage1/critical/%s/%02x", x.str().c_str(), crit[first]), [&] {
        PointcloudDecoder dec;
        for (size_t pts : {2, 3}) {
          auto info = x.info(pts);
          all_sequences(7, 0, (T ? 6 : adaptive ? 4 : 3) - (pts == 2 ? 0 : 1), [&](const std::vector<int>& d) {
            Bytes s{crit[first]};
            for (int q : d) s.push_back(crit[q]);
            try_decode(info, framed(info, s), pts * info.point_step, &dec);
          });
        }
      });
    if (x.k[0] == 3 || x.k[0] == 1 || x.k[0] == 2 || x.k[0] == 0)  // long inputs for the coders that need several bytes per value: fill + critical tail
      for (int fill = 0; fill < 7; fill++)
        vh::run_case(vh::fmt("stage1/long/%s/%02x", x.str().c_str(), crit[fill]), [&] {
          PointcloudDecoder dec;
          for (size_t pts : {2, 4}) {
            auto info = x.info(pts);
            for (size_t len = 4; len <= 24; len += (T ? 1 : 2))
              all_sequences(7, 2, T ? 4 : 2, [&](const std::vector<int>& d) {
                for (size_t at = 0; at + d.size() <= len; at += (T ? 1 : 4)) {
                  Bytes s(len, crit[fill]);
                  for (size_t q = 0; q < d.size(); q++) s[at + q] = crit[d[q]];
                  try_decode(info, framed(info, s), pts * info.point_step, &dec);
                }
              });
          }
        });
    // adaptive sections with every combination of counts
    if (adaptive && (x.k.size() == 1 || x.k == std::vector<int>{6, 9}))
      for (int mode = 0; mode < 5; mode++)
        vh::run_case(vh::fmt("stage1/adaptive/%s/mode%d", x.str().c_str(), mode), [&] {
          PointcloudDecoder dec;
          for (size_t pts : {2, 3}) {
            auto info = x.info(pts);
            for (uint32_t count : {0u, 1u, 2u, 3u, 4u, 255u, 65535u, 0x10000u, 0x7fffffffu, 0x80000000u, 0xffffffffu})
              all_sequences(7, 0, T ? 6 : 4, [&](const std::vector<int>& d) {
                Bytes s{uint8_t(mode)};
                ref::put_u(s, count, mode == 1 ? 2 : 4);
                for (int q : d) s.push_back(crit[q]);
                try_decode(info, framed(info, s), pts * info.point_step, &dec);
              });
            // a palette or runs with complete values
            int w = size_of(info.fields[0].type);
            for (uint32_t count : {1u, 2u, 3u, 4u, 5u, 1000u})
              for (uint32_t have = 0; have <= 5; have++)
                for (uint8_t tail : {0x00, 0x01, 0x02, 0x80, 0xff})
                  for (int tails = 0; tails <= 3; tails++) {
                    Bytes s{uint8_t(mode)};
                    ref::put_u(s, count, mode == 1 ? 2 : 4);
                    for (uint32_t q = 0; q < have; q++) {
                      ref::put_u(s, q * 0x0101, w);
                      if (mode != 1) s.push_back(tail);
                    }
                    s.insert(s.end(), tails, tail);
                    try_decode(info, framed(info, s), pts * info.point_step, &dec);
                  }
          }
        });
    // runs with lengths in every number of bytes, up to those that do not fit in 64 bits; also sums that wrap around
    if (adaptive && (x.k.size() == 1 || x.k == std::vector<int>{6, 9}))
      for (int mode = 2; mode < 5; mode++)
        vh::run_case(vh::fmt("stage1/runs/%s/mode%d", x.str().c_str(), mode), [&] {
          PointcloudDecoder dec;
          std::vector<Bytes> lens;
          for (int k = 0; k <= 12; k++)
            for (uint8_t pad : {0x80, 0xff})
              for (uint8_t last : {0x00, 0x01, 0x02, 0x03, 0x7f}) {
                Bytes b(k, pad);
                b.push_back(last);
                lens.push_back(b);
                if (k) b[0] = 0x81, lens.push_back(b);
                if (k) b[0] = 0x82, lens.push_back(b);
              }
          for (size_t pts : {2, 3}) {
            auto info = x.info(pts);
            int w = size_of(info.fields[0].type);
            auto one = [&](uint32_t runs, std::initializer_list<const Bytes*> l) {
              for (int fixed = 0; fixed < 2; fixed++) {  // values in their own width, or as one-byte varints
                Bytes s{uint8_t(mode)};
                ref::put_u(s, runs, 4);
                for (auto* b : l) {
                  ref::put_u(s, 1, fixed ? w : 1);
                  s.insert(s.end(), b->begin(), b->end());
                }
                try_decode(info, framed(info, s), pts * info.point_step, &dec);
              }
            };
            for (auto& a : lens) {
              one(1, {&a});
              for (size_t j = 0; j < lens.size(); j += T ? 1 : 7) one(2, {&a, &lens[j]});
            }
          }
        });
    // frame size words
    vh::run_case("frame/" + x.str(), [&] {
      for (size_t pts : {0, 1, 2})
        for (uint32_t sz : {0u, 1u, 2u, 3u, 4u, 0x7fffffffu, 0x80000000u, 0xfffffffbu, 0xffffffffu})
          for (size_t len = 0; len <= 8; len++)
            for (uint8_t fill : {0x00, 0x01, 0xff}) {
              auto info = x.info(pts);
              Bytes p;
              ref::put_u(p, sz, 4);
              p.resize(len <= 3 ? len : len);
              p.resize(len, fill);
              try_decode(info, p, pts * info.point_step);
              p.insert(p.end(), p.begin(), p.end());
              try_decode(info, p, pts * info.point_step);
            }
    });
  }

  // (b) damaged valid streams (header in both forms + payload)
  for (auto& x : cs)
    for (int style = 0; style < (T ? 3 : 1); style++)
      vh::run_case(vh::fmt("damaged/%s/%d", x.str().c_str(), style), [&] {
        for (size_t pts : T ? std::vector<size_t>{1, 3, 9} : std::vector<size_t>{3}) {
          auto info = x.info(pts, style);
          Bytes cloud = make_cloud(pts, info.fields, info.point_step, style);
          Bytes payload = ref::encode_payload(info, cloud);
          PointcloudDecoder dec;
          mutations(payload, T || (x.c.version == 5 && payload.size() < 24), [&](const Bytes& m) { try_decode(info, m, pts * info.point_step, &dec); });
          if (x.c.comp == CompressionOption::ZSTD || T) {
            Bytes h = ref::header_binary(info);
            size_t hs = h.size();
            h.insert(h.end(), payload.begin(), payload.end());
            mutations(h, false, [&](const Bytes& m) {
              if (T || memcmp(m.data(), h.data(), std::min(hs, m.size())) != 0) try_full(m);
            });
          }
          // output buffers of other sizes
          for (size_t o = 0; o <= pts * info.point_step + 9; o++) try_decode(info, payload, o);
        }
      });
  // two bytes damaged at once
  for (auto& x : cs) {
    if (x.c.comp != CompressionOption::NONE || x.c.enc == EncodingOptions::NONE) continue;
    if (!T && (x.c.version == 2 || x.c.version == 3)) continue;
    vh::run_case("damaged2/" + x.str(), [&] {
      size_t pts = 2;
      auto info = x.info(pts);
      Bytes p = ref::encode_payload(info, make_cloud(pts, info.fields, info.point_step, 1));
      PointcloudDecoder dec;
      for (size_t i = 0; i < p.size(); i++)
        for (size_t j = i + 1; j < p.size(); j++)
          for (uint8_t a : crit)
            for (uint8_t b : crit) {
              if (!T && ((i * 7 + j) % 3) && j > i + 2) continue;
              Bytes m = p;
              m[i] = a;
              m[j] = b;
              try_decode(info, m, pts * info.point_step, &dec);
            }
    });
  }

  // (c) inconsistent descriptions: every pair of members takes extreme values
  struct Dim {
    const char* name;
    std::vector<double> v;
  };
  const std::vector<Dim> dims{{"width", {0, 1, 2, 3, 65535, 65536, 32769, 2147483648.0, 4294967295.0}},
                              {"height", {0, 1, 2, 65536, 2147483648.0, 4294967295.0}},
                              {"step", {0, 1, 3, 4, 11, 12, 13, 65535, 2147483647.0, 4294967295.0}},
                              {"offset", {0, 1, 8, 9, 12, 2147483648.0, 4294967292.0, 4294967294.0, 4294967295.0}},
                              {"type", {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 255}},
                              {"resolution", {-2, -1, 0, 1e-45, 1e-38, 1e38, INFINITY, NAN}},
                              {"encoding", {0, 1, 2, 3, 255}},
                              {"compression", {0, 1, 2, 3, 255}},
                              {"version", {0, 1, 2, 3, 4, 5, 6, 255}},
                              {"output", {0, 1, 11, 12, 24, 35, 37}},
                              {"field", {0, 1, 2}}};
  auto with = [&](const std::vector<std::pair<int, double>>& set, Config c, bool f64) {
    uint32_t step;
    auto f = f64 ? layout({3, 8}, 0, step) : layout({0, 0, 0}, 0, step, 0.25f);
    if (f64) f.push_back(f[1]);
    auto info = make_info(c, f, step, 3);
    Bytes cloud = make_cloud(3, f, step, 1);
    Bytes payload = ref::encode_payload(info, cloud);
    size_t out = 3 * step, which = 0;
    for (auto& s : set)
      if (s.first == 10) which = (size_t)s.second;
    for (auto& s : set) {
      auto u = [&] { return (uint32_t)(uint64_t)s.second; };
      switch (s.first) {
        case 0: info.width = u(); break;
        case 1: info.height = u(); break;
        case 2: info.point_step = u(); break;
        case 3: info.fields[which].offset = u(); break;
        case 4: info.fields[which].type = FT(u()); break;
        case 5:
          if (s.second == -2) info.fields[which].resolution.reset();
          else info.fields[which].resolution = (float)s.second;
          break;
        case 6: info.encoding_opt = EncodingOptions(u()); break;
        case 7: info.compression_opt = CompressionOption(u()); break;
        case 8: info.version = (uint8_t)u(); break;
        case 9: out = (size_t)s.second; break;
      }
    }
    for (size_t o : {out, size_t(0), size_t(1), out + 1, size_t(4096)}) try_decode(info, payload, o);
    // the size function and the encoder get the same treatment
    size_t mx = 0;
    if (uint64_t(info.width) * info.height < 100000) guarded("MaxCompressedSize", 1 << 18, [&] { mx = MaxCompressedSize(info, size_t(info.width) * info.height, true); });
    guarded("header", 1 << 18, [&] {
      Bytes h;
      EncodeHeader(info, h, HeaderEncoding::BINARY);
      ConstBufferView v(h.data(), h.size());
      DecodeHeader(v);
    });
    guarded("header", 1 << 18, [&] {
      Bytes h;
      EncodeHeader(info, h);
      ConstBufferView v(h.data(), h.size());
      DecodeHeader(v);
    });
    guarded("encode", 8 << 20, [&] {
      info.use_threads = false;
      PointcloudEncoder e(info);
      Exact in(cloud);
      Bytes o;
      e.encode(ConstBufferView(in.p, in.n), o);
    });
  };
  for (size_t a = 0; a < dims.size(); a++)
    for (size_t b = a + 1; b < dims.size(); b++)
      for (int f64 = 0; f64 < 2; f64++)
        for (auto& c : all_configs({2, 3, 4, 5}, false)) {
          if (!T && c.comp != CompressionOption::ZSTD && c.version != 5) continue;
          vh::run_case_l([&] { return vh::fmt("description/%s+%s/%s/%d", dims[a].name, dims[b].name, c.str().c_str(), f64); }, [&] {
            for (double va : dims[a].v)
              for (double vb : dims[b].v) with({{(int)a, va}, {(int)b, vb}, {10, double(int(va + vb) & 1)}}, c, f64);
          });
        }
  if (T)
    for (size_t a = 0; a < 9; a++)
      for (size_t b = a + 1; b < 10; b++)
        for (size_t d = b + 1; d < 11; d++)
          for (int f64 = 0; f64 < 2; f64++)
            for (int ver : {4, 5})
              vh::run_case_l([&] { return vh::fmt("description3/%s+%s+%s/%d/%d", dims[a].name, dims[b].name, dims[d].name, f64, ver); }, [&] {
                for (double va : dims[a].v)
                  for (double vb : dims[b].v)
                    for (double vd : dims[d].v) with({{(int)a, va}, {(int)b, vb}, {(int)d, vd}}, {ver, EncodingOptions::LOSSY, CompressionOption::NONE}, f64);
              });
  // very many fields and very many points per byte
  for (auto& c : all_configs({3, 4, 5}, false))
    vh::run_case("many/" + c.str(), [&] {
      for (int nf : {0, 1, 100, 3000}) {
        std::vector<PointField> f;
        for (int i = 0; i < nf; i++) f.push_back({"q", 0, kAllTypes[i % 10], std::nullopt});
        auto info = make_info(c, f, 8, 3);
        for (size_t len : {0, 1, 50, 2000}) {
          Bytes s(len, 1);
          try_decode(info, framed(info, ref::compress(c.comp, s)), 24);
        }
      }
      // a decompression bomb: megabytes of zeros behind a few bytes
      uint32_t step;
      auto f = layout({8}, 0, step);
      auto info = make_info(c, f, step, 4);
      for (size_t big : {100000, 4000000}) try_decode(info, framed(info, ref::compress(c.comp == CompressionOption::NONE ? CompressionOption::ZSTD : c.comp, Bytes(big, 0))), 16);
    });

  // (d) headers
  vh::run_case("header/short", [&] {
    for (int v = 0; v < 100; v++) {
      Bytes m;
      std::string s = vh::fmt("CLOUDINI_V%02d", v);
      m.assign(s.begin(), s.end());
      for (size_t n = 0; n <= m.size(); n++) try_full(Bytes(m.begin(), m.begin() + n));
      if (v < 2 || v > 6) continue;
      for (int a = 0; a < 256; a++) {
        Bytes q = m;
        q.push_back(a);
        try_full(q);
        for (uint8_t b : {0x00, 0x0a, 0x3a, 0x20, 0xff}) {
          q.resize(m.size() + 1);
          q.push_back(b);
          try_full(q);
        }
      }
    }
  });
  for (int v : {3, 5})
    for (int first = 0; first < 8; first++)
      vh::run_case(vh::fmt("header/yaml-tokens/%d/%d", v, first), [&] {
        // every short arrangement of the tokens the text parser distinguishes
        static const char* tok[] = {"\n", " ", "-", ":", "fields", "#", "\"", "version: 5"};
        all_sequences(8, 0, T ? 6 : 4, [&](const std::vector<int>& d) {
          std::string s = vh::fmt("CLOUDINI_V%02d\nversion:", v);
          s += tok[first];
          for (int q : d) s += tok[q];
          Bytes m(s.begin(), s.end());
          m.push_back(0);
          try_full(m);
        });
      });
  for (auto& c : all_configs({2, 3, 4, 5}, false)) {
    if (c.comp == CompressionOption::LZ4 || (!T && c.version == 4)) continue;
    vh::run_case("header/yaml-damaged/" + c.str(), [&] {
      uint32_t step;
      auto f = layout({0, 0, 0, 6}, 0, step, 0.25f);
      auto info = make_info(c, f, step, 2);
      Bytes payload = ref::encode_payload(info, make_cloud(2, f, step, 1));
      Bytes h = ref::header_yaml(info);
      auto full = [&](Bytes x) {
        x.insert(x.end(), payload.begin(), payload.end());
        try_full(x);
      };
      for (size_t n = 0; n < h.size(); n++) full(Bytes(h.begin(), h.begin() + n));
      for (size_t i = 12; i < h.size(); i++)
        for (int v : {0x00, 0x09, 0x0a, 0x20, 0x22, 0x23, 0x2d, 0x2e, 0x30, 0x39, 0x3a, 0x5c, 0x65, 0x80, 0xff}) {
          if (!T && c.comp == CompressionOption::ZSTD && (i + v) % 4) continue;
          Bytes b = h;
          b[i] = v;
          full(b);
        }
      // lines removed, doubled, swapped, indented
      std::vector<std::string> lines;
      std::string cur;
      for (size_t i = 13; i + 1 < h.size(); i++) {
        cur += char(h[i]);
        if (h[i] == '\n') {
          lines.push_back(cur);
          cur.clear();
        }
      }
      auto build = [&](const std::vector<std::string>& l) {
        std::string s(h.begin(), h.begin() + 13);
        for (auto& x : l) s += x;
        Bytes b(s.begin(), s.end());
        b.push_back(0);
        full(b);
      };
      for (size_t i = 0; i < lines.size(); i++) {
        auto l = lines;
        l.erase(l.begin() + i);
        build(l);
        l = lines;
        l.insert(l.begin() + i, lines[i]);
        build(l);
        for (const char* ind : {" ", "  ", "\t", "      ", "- ", "-"}) {
          l = lines;
          l[i] = ind + l[i];
          build(l);
        }
        l = lines;
        l[i] = l[i].substr(0, l[i].find(':') == std::string::npos ? 1 : l[i].find(':') + 1) + "\n";
        build(l);
        for (const char* val : {"-1", "4294967296", "99999999999999999999", "1e9", "0x10", "nan", "inf", "null", "-", "''", "\"", "[]", "{}", "&a", "1e-99", "1e99"}) {
          l = lines;
          l[i] = l[i].substr(0, l[i].find(':') == std::string::npos ? 1 : l[i].find(':') + 1) + " " + val + "\n";
          build(l);
        }
        for (size_t j = i + 1; j < lines.size(); j++) {
          l = lines;
          std::swap(l[i], l[j]);
          build(l);
        }
      }
      // deep nesting
      for (int depth : {10, 1000, 20000}) {
        std::string s = "CLOUDINI_V05\nversion: 5\n";
        for (int i = 0; i < depth && s.size() < 400000; i++) s += std::string(std::min(i, 20), ' ') + "a:\n";
        Bytes b(s.begin(), s.end());
        b.push_back(0);
        full(b);
        s = "CLOUDINI_V05\nversion: 5\nfields:\n";
        for (int i = 0; i < depth; i++) s += "- ";
        b.assign(s.begin(), s.end());
        b.push_back(0);
        full(b);
      }
    });
  }

  // (e) serialized ROS messages
  for (int be = 0; be < 2; be++)
    for (int comp = 0; comp < 2; comp++)
      for (int li = 0; li < (T ? 6 : 3); li++)
        for (int part = 0; part < 8; part++)
          vh::run_case(vh::fmt("ros/%s/%s/%d/%d", be ? "big" : "little", comp ? "compressed" : "plain", li, part), [&] {
            static const std::vector<std::vector<int>> L{{0, 0, 0, 6}, {3, 5}, {0, 0, 0}, {1, 1, 1, 2}, {8, 7}, {}};
            uint32_t step;
            auto f = layout(L[li], 0, step, 0.25f);
            if (L[li].empty()) step = 4;
            Bytes cloud = make_cloud(3, f, step, 1);
            Bytes data = cloud;
            if (comp) {
              auto info = make_info({5, EncodingOptions::LOSSY, CompressionOption(li % 3)}, f, step, 3);
              data = ref::header_yaml(info);
              if (li == 1) data = ref::header_binary(info);
              Bytes p = ref::encode_payload(info, cloud);
              data.insert(data.end(), p.begin(), p.end());
            }
            Bytes m = ros_msg(be, part % 2 ? "map" : "", 1, 3, f, step, data, comp);
            long k = 0;
            mutations(m, T, [&](const Bytes& x) {
              if (k++ % 8 == part) try_ros(x);
            });
            // all pairs of extreme 32-bit words
            size_t words = (m.size() - 4) / 4;
            static const uint32_t ext[] = {0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffff0u, 0x10000};
            for (size_t i = part; i < std::min<size_t>(words, 40); i += 8)
              for (size_t j = i; j < std::min<size_t>(words, 40); j++)
                for (uint32_t a : ext)
                  for (uint32_t b : ext) {
                    if (!T && (i + j) % 3) continue;
                    Bytes x = m;
                    for (int q = 0; q < 4; q++) x[4 + 4 * i + q] = uint8_t(a >> 8 * (be ? 3 - q : q));
                    for (int q = 0; q < 4; q++) x[4 + 4 * j + q] = uint8_t(b >> 8 * (be ? 3 - q : q));
                    try_ros(x);
                  }
          });
  vh::run_case("ros/short", [&] {
    for (int a = 0; a < 256; a++)
      for (int b : {0, 1, 2, 3, 4, 5, 6, 255})
        for (int c : {0, 1, 255})
          for (size_t n = 0; n <= 8; n++) {
            Bytes m{uint8_t(a < 4 ? a : 0), uint8_t(a), uint8_t(b == 255 ? 1 : 0), uint8_t(c == 255 ? 1 : 0)};
            m.resize(4 + n, uint8_t(c));
            if (n < 4) m.resize(n);
            try_ros(m);
          }
  });
  return vh::finish();
}
