// C18: the exported C functions (WebAssembly API), compiled natively.  Inputs lie in heap blocks of exactly their size (AddressSanitizer),
// outputs in pages of exactly the documented size followed by an inaccessible page.
#include <signal.h>
#include <sys/mman.h>

#include <new>

#include "cdr.hpp"
#include "cloudini_lib/ros_msg_utils.hpp"
#include "cloudini_lib/wasm_functions.h"
#include "gen.hpp"
#include "ref.hpp"
using namespace cl;

// An allocation that a browser tab could not satisfy either fails.
static bool g_limit = true;
static constexpr size_t kBig = 2 << 20;  // results beyond this size may fail for lack of memory
static void* take(size_t n) {
  void* p = g_limit && n > 4 * kBig ? nullptr : malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

struct In {
  uint8_t* p;
  size_t n;
  explicit In(const Bytes& b) : p((uint8_t*)malloc(b.size())), n(b.size()) {
    if (n) memcpy(p, b.data(), n);
  }
  ~In() { free(p); }
  In(const In&) = delete;
  uintptr_t a() const { return (uintptr_t)p; }
};
// Writable memory of up to 4 GB (lazily committed) whose end coincides with the start of an inaccessible page.
struct Arena {
  static constexpr size_t kMax = (size_t(1) << 32) + 4096;
  uint8_t* base;
  Arena() {
    base = (uint8_t*)mmap(nullptr, kMax + 4096 * 16, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED || mprotect(base, kMax, PROT_READ | PROT_WRITE)) abort();
  }
  uint8_t* end() { return base + kMax; }
};
static Arena& arena() {
  static Arena* a = new Arena();
  return *a;
}
struct Out {
  uint8_t* p;
  size_t n, lead;
  explicit Out(size_t m) : p(arena().end() - m), n(m), lead(64) {
    if (n + lead > Arena::kMax) lead = 0;
    memset(p - lead, 0x5A, lead);
    memset(p, 0xEE, std::min<size_t>(n, 1 << 16));
  }
  void check(const char* what) {
    for (size_t i = 1; i <= lead; i++)
      if (*(p - i) != 0x5A) vh::fail("underrun", "%s wrote in front of the output buffer", what);
  }
  ~Out() {
    if (n > (1 << 20)) madvise((void*)(((uintptr_t)p + 4095) & ~4095ul), n & ~4095ul, MADV_DONTNEED);
  }
  uintptr_t a() const { return (uintptr_t)p; }
  Bytes bytes(size_t m) const { return Bytes(p, p + m); }
};

// One call of an entry point: whatever happens, no exception comes out.
template <class Fn>
static uint32_t call(const char* what, Fn&& fn) {
  uint32_t r = 0;
  vh::transition();
  vh::beat();
  try {
    r = fn();
  } catch (const std::exception& e) {
    vh::fail("escaped", "%s: an exception escaped: %s", what, e.what());
  } catch (...) {
    vh::fail("escaped", "%s: an exception escaped", what);
  }
  vh::outcome(std::string(what) + (r ? ": done" : ": 0"));
  return r;
}
#define NEED(cond, key, ...) \
  do { \
    if (!(cond)) vh::fail(key, __VA_ARGS__); \
  } while (0)

static std::string g_why;
static bool quietly(const std::function<void()>& f) {
  struct Restore {
    const bool before = g_limit;
    Restore() { g_limit = false; }
    ~Restore() { g_limit = before; }
  } restore;
  try {
    f();
    return true;
  } catch (const vh::Fail&) {
    throw;
  } catch (const std::exception& e) {
    g_why = e.what();
    return false;
  }
}

// ---- functions that read compressed data / messages: any input ----
static void any_data(const Bytes& data) {
  In in(data);
  // what the documentation allows the function to write: the decoded size that the header declares
  EncodingInfo info;
  ConstBufferView v(in.p, in.n);
  const bool header = quietly([&] { info = DecodeHeader(v); });
  {
    std::string want = header ? EncodingInfoToYAML(info) : "";
    Out o(want.size());
    uint32_t r = call("GetHeaderAsYAML", [&] { return cldn_GetHeaderAsYAML(in.a(), (uint32_t)in.n, o.a()); });
    o.check("GetHeaderAsYAML");
    NEED(r == want.size() && memcmp(o.p, want.data(), r) == 0, "yaml", "GetHeaderAsYAML: %u bytes instead of the %zu bytes of the header's text", r, want.size());
  }
  {
    const uint32_t declared = header ? info.width * info.height * info.point_step : 0;
    Out o(declared);
    uint32_t r = call("DecodeCompressedData", [&] { return cldn_DecodeCompressedData(in.a(), (uint32_t)in.n, o.a()); });
    o.check("DecodeCompressedData");
    NEED(r == 0 || r == declared, "size", "DecodeCompressedData returns %u; the header declares %u", r, declared);
    if (r) {
      // a result that is not 0 is what the library decodes
      const size_t full = size_t(info.width) * info.height * info.point_step;
      NEED(full == declared, "size", "DecodeCompressedData returns %u for a cloud of %zu bytes", r, full);
      if (full <= kBig) {
        Bytes want(full, 0xEE);
        const bool ok = quietly([&] {
          PointcloudDecoder d;
          d.decode(info, v, BufferView(want.data(), want.size()));
        });
        NEED(ok, "result", "DecodeCompressedData returns %u for data that the library refuses", r);
        for (size_t i = 1 << 16; i < full; i++)
          if (want[i] == 0xEE) want[i] = o.p[i];
        NEED(memcmp(o.p, want.data(), full) == 0, "result", "DecodeCompressedData differs from the library");
      }
    }
    vh::state(r);
  }
  vh::validated();
}
static void any_message(const Bytes& msg, bool encode_too) {
  In in(msg);
  cloudini_ros::RosPointCloud2 pc;
  const bool readable = quietly([&] { pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(in.p, in.n)); });
  const uint32_t announced = call("GetDecompressedSize", [&] { return cldn_GetDecompressedSize(in.a(), (uint32_t)in.n); });
  NEED(readable || !announced, "size", "GetDecompressedSize announces %u bytes for an unreadable message", announced);
  if (readable) {
    const uint64_t full = uint64_t(pc.width) * pc.height;
    if (full * pc.point_step <= 0xFFFFFFFFu && full <= 0xFFFFFFFFu) NEED(announced == full * pc.point_step, "size", "GetDecompressedSize announces %u bytes instead of %llu", announced, (unsigned long long)(full * pc.point_step));
  }
  {
    std::string want;
    if (readable) quietly([&] {
        ConstBufferView v = pc.data;
        want = EncodingInfoToYAML(DecodeHeader(v));
      });
    Out o(want.size());
    uint32_t r = call("GetHeaderAsYAMLFromDDS", [&] { return cldn_GetHeaderAsYAMLFromDDS(in.a(), (uint32_t)in.n, o.a()); });
    o.check("GetHeaderAsYAMLFromDDS");
    NEED(r == want.size() && memcmp(o.p, want.data(), r) == 0, "yaml", "GetHeaderAsYAMLFromDDS: %u bytes instead of %zu", r, want.size());
  }
  {
    Out o(announced);
    uint32_t r = call("DecodeCompressedMessage", [&] { return cldn_DecodeCompressedMessage(in.a(), (uint32_t)in.n, o.a()); });
    o.check("DecodeCompressedMessage");
    NEED(r <= announced, "size", "DecodeCompressedMessage returns %u although %u were announced", r, announced);
    if (r && r <= kBig) {
      Bytes want(r, 0xEE);
      ConstBufferView v = pc.data;
      const bool ok = quietly([&] {
        auto info = DecodeHeader(v);
        PointcloudDecoder d;
        d.decode(info, v, BufferView(want.data(), want.size()));
      });
      for (size_t i = 1 << 16; i < r; i++)
        if (want[i] == 0xEE) want[i] = o.p[i];
      NEED(ok && memcmp(o.p, want.data(), r) == 0, "result", "DecodeCompressedMessage differs from the library");
    }
  }
  if (announced > kBig) {
    Out o(size_t(1) << 32);
    call("ConvertCompressedMsgToPointCloud2Msg", [&] { return cldn_ConvertCompressedMsgToPointCloud2Msg(in.a(), (uint32_t)in.n, o.a()); });
  } else {
    Bytes want;
    if (readable) quietly([&] {
        Bytes w;
        cloudini_ros::convertCompressedCloudToPointCloud2(pc, w);
        want = w;
      });
    Out o(want.size());
    uint32_t r = call("ConvertCompressedMsgToPointCloud2Msg", [&] { return cldn_ConvertCompressedMsgToPointCloud2Msg(in.a(), (uint32_t)in.n, o.a()); });
    o.check("ConvertCompressedMsgToPointCloud2Msg");
    NEED(r == want.size() && memcmp(o.p, want.data(), r) == 0, "convert", "ConvertCompressedMsgToPointCloud2Msg: %u bytes instead of %zu, or other contents", r, want.size());
  }
  if (encode_too)
    for (float res : {0.01f, 0.f}) {
      if (res == 0 && vh::hash_bytes(msg.data(), msg.size()) % 8) continue;  // (threads are expensive)
      if (vh::hash_bytes(msg.data(), msg.size()) % 4 == 1 || vh::thorough()) call("ComputeCompressedSize", [&] { return cldn_ComputeCompressedSize(in.a(), (uint32_t)in.n, res); });
      Out o(in.n);
      uint32_t r = call("EncodePointcloudMessage", [&] { return cldn_EncodePointcloudMessage(in.a(), (uint32_t)in.n, res, o.a()); });
      o.check("EncodePointcloudMessage");
      NEED(r <= in.n, "size", "EncodePointcloudMessage returns %u for a buffer of %zu", r, in.n);
      if (r && readable) {
        Bytes z = o.bytes(r);
        ConstBufferView v(z.data(), z.size());
        EncodingInfo info;
        const bool ok = quietly([&] { info = DecodeHeader(v); });
        NEED(ok && info.width == pc.width && info.height == pc.height && info.point_step == pc.point_step, "encode-header", "EncodePointcloudMessage: the header of the result is wrong");
        const unsigned __int128 full = (unsigned __int128)info.width * info.height * info.point_step;
        NEED(full == pc.data.size(), "mismatch", "EncodePointcloudMessage encoded a message whose dimensions disagree with its data (%ux%u, %zu bytes)", info.width, info.height, pc.data.size());
        // corrupted names of fields, overlapping fields etc. are encoded as they are: the result is decodable
        Bytes out(pc.data.size());
        const bool dec = quietly([&] {
          PointcloudDecoder d;
          d.decode(info, v, BufferView(out.data(), out.size()));
        });
        // (a resolution of 0 is no supported configuration)
        NEED(dec || pc.fields.empty() || res == 0, "undecodable", "EncodePointcloudMessage: the result cannot be decoded: %s", g_why.c_str());
      }
    }
  vh::validated();
  vh::state(announced);
}
static void any_yaml(const std::string& yaml, const Bytes& data) {
  In in(data);
  std::unique_ptr<char, void (*)(void*)> y((char*)malloc(yaml.size() + 1), free);
  memcpy(y.get(), yaml.c_str(), yaml.size() + 1);
  Out o(in.n);
  uint32_t r = call("EncodePointcloudData", [&] { return cldn_EncodePointcloudData(y.get(), in.a(), (uint32_t)in.n, o.a()); });
  o.check("EncodePointcloudData");
  NEED(r <= in.n, "size", "EncodePointcloudData returns %u for a buffer of %zu", r, in.n);
  if (r) {
    Bytes z = o.bytes(r);
    ConstBufferView v(z.data(), z.size());
    EncodingInfo info;
    const bool ok = quietly([&] { info = DecodeHeader(v); });
    NEED(ok, "encode-header", "EncodePointcloudData: the result has no readable header");
    const unsigned __int128 full = (unsigned __int128)info.width * info.height * info.point_step;
    NEED(full == in.n, "mismatch", "EncodePointcloudData encoded data of another size than the header declares");
  }
  vh::validated();
}

// ---- valid inputs ----
static const std::vector<std::vector<int>> kLay{{0, 0, 0}, {0, 0, 0, 6, 9}, {3, 5}, {8}, {4, 4, 4, 4, 4}, {2, 10}, {1, 1, 1, 1, 7, 3}, {0, 0, 0, 0, 11}};

static Bytes compressed_message(const Config& c, const std::vector<PointField>& f, uint32_t step, const Bytes& cloud, uint32_t h, uint32_t w, bool be, EncodingInfo* out_info = nullptr) {
  auto info = make_info(c, f, step, w, h);
  auto m = cdr::from_layout(be, "lidar", h, w, f, step, cloud.empty() ? Bytes{} : enc_fresh(info, cloud));
  m.format = "cloudini";
  if (out_info) *out_info = info;
  return cdr::write(m);
}

static void valid(const Config& c, const std::vector<int>& kinds, int packing, uint32_t h, uint32_t w, int style, bool be) {
  uint32_t step;
  auto f = layout(kinds, packing, step, 0.25f);
  const Bytes cloud = make_cloud(size_t(h) * w, f, step, style);
  EncodingInfo info;
  const Bytes msg = compressed_message(c, f, step, cloud, h, w, be, &info);
  // decoding
  {
    In in(msg);
    uint32_t n = call("GetDecompressedSize", [&] { return cldn_GetDecompressedSize(in.a(), (uint32_t)in.n); });
    NEED(n == cloud.size(), "announced", "GetDecompressedSize announces %u bytes, the cloud has %zu", n, cloud.size());
    Out o(n);
    uint32_t r = call("DecodeCompressedMessage", [&] { return cldn_DecodeCompressedMessage(in.a(), (uint32_t)in.n, o.a()); });
    o.check("DecodeCompressedMessage");
    NEED(r == n, "written", "DecodeCompressedMessage returns %u, %u were announced", r, n);
    if (r && r <= (1 << 16)) check_cloud(c, info, cloud, o.bytes(r), 0xEE, "DecodeCompressedMessage");
    else if (r) {
      auto d = dec_full(cdr::read(msg, true).data, 0);
      Bytes got = o.bytes(r);
      for (size_t p = 0; p < size_t(h) * w; p++)
        for (auto& x : f)
          NEED(!memcmp(&got[p * step + x.offset], &d.data[p * step + x.offset], size_of(x.type)), "written", "DecodeCompressedMessage: point %zu differs from the library", p);
    }
    Bytes want;
    auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(in.p, in.n));
    cloudini_ros::convertCompressedCloudToPointCloud2(pc, want);
    Out o2(want.size());
    r = call("ConvertCompressedMsgToPointCloud2Msg", [&] { return cldn_ConvertCompressedMsgToPointCloud2Msg(in.a(), (uint32_t)in.n, o2.a()); });
    NEED(r == want.size() && o2.bytes(r) == want, "convert", "ConvertCompressedMsgToPointCloud2Msg: %u bytes instead of %zu, or other contents", r, want.size());
    auto m = cdr::read(o2.bytes(r), false);
    NEED(m.width == w && m.height == h && m.frame == "lidar" && m.fields.size() == f.size(), "convert", "the restored message is wrong");
    check_cloud(c, info, cloud, m.data, 0, "ConvertCompressedMsgToPointCloud2Msg");
  }
  if (!cloud.empty()) any_data(cdr::read(msg, true).data);
  // encoding
  const Bytes raw = cdr::write(cdr::from_layout(be, "lidar", h, w, f, step, cloud));
  for (float res : {0.25f, 0.001f}) {
    In in(raw);
    EncodingInfo ei = make_info(Config{5, EncodingOptions::LOSSY, CompressionOption::ZSTD, true}, f, step, w, h);
    ei.version = EncodingInfo().version;
    ei.use_threads = EncodingInfo().use_threads;
    for (auto& x : ei.fields) {
      x.resolution.reset();
      if (x.type == FT::FLOAT32) x.resolution = res;
    }
    const Bytes want = enc_fresh(ei, cloud);
    uint32_t n = call("ComputeCompressedSize", [&] { return cldn_ComputeCompressedSize(in.a(), (uint32_t)in.n, res); });
    NEED(n == want.size(), "computed", "ComputeCompressedSize returns %u, the library needs %zu bytes", n, want.size());
    Out o(in.n);
    uint32_t r = call("EncodePointcloudMessage", [&] { return cldn_EncodePointcloudMessage(in.a(), (uint32_t)in.n, res, o.a()); });
    o.check("EncodePointcloudMessage");
    if (want.size() > in.n) NEED(r == 0, "encoded", "EncodePointcloudMessage returns %u although %zu bytes do not fit", r, want.size());
    else {
      NEED(r == n, "encoded", "EncodePointcloudMessage returns %u, ComputeCompressedSize %u (buffer of %zu)", r, n, in.n);
      auto d = dec_full(o.bytes(r));
      NEED(d.info.width == w && d.info.height == h && d.info.fields == ei.fields, "encoded", "header of the result is wrong");
      check_cloud({(int)ei.version, ei.encoding_opt, ei.compression_opt, false}, ei, cloud, d.data, 0xCD, "EncodePointcloudMessage");
    }
    vh::state(r);
  }
  for (int pass = 0; pass < 2; pass++) {
    In in(cloud);
    std::string y = EncodingInfoToYAML(info);
    const Bytes want = enc_fresh(info, cloud);
    Out o(in.n);
    uint32_t r = call("EncodePointcloudData", [&] { return cldn_EncodePointcloudData(y.c_str(), in.a(), (uint32_t)in.n, o.a()); });
    o.check("EncodePointcloudData");
    NEED(r == (want.size() > in.n ? 0 : want.size()), "encoded", "EncodePointcloudData returns %u; %zu bytes are needed, the buffer holds %zu", r, want.size(), in.n);
    if (r) {
      auto d = dec_full(o.bytes(r));
      NEED(d.info.width == w && d.info.height == h && d.info.fields == info.fields, "encoded", "header of the result is wrong");
      check_cloud(c, info, cloud, d.data, 0xCD, "EncodePointcloudData");
    }
  }
  vh::validated();
}

// ---- mutations ----
template <class Fn>
static void mutations(const Bytes& b, int part, int parts, Fn&& fn) {
  for (size_t i = part; i < b.size(); i += parts) fn(Bytes(b.begin(), b.begin() + i));
  for (size_t i = part; i < b.size(); i += parts) {
    std::set<uint8_t> vals{0, 1, 0xFF, 0x7F, 0x80, uint8_t(b[i] + 1), uint8_t(b[i] - 1), uint8_t(b[i] ^ 0x80), uint8_t(b[i] << 1)};
    for (uint8_t v : vals)
      if (v != b[i]) {
        Bytes m = b;
        m[i] = v;
        fn(m);
      }
  }
}
// replaces a member of the message by extreme values
static void members(cdr::Msg m, const std::function<void(const Bytes&)>& fn) {
  static const uint32_t ext[] = {0, 1, 2, 3, 4, 7, 8, 16, 255, 256, 65535, 65536, 65537, 0x10000000, 0x20000000, 0x3FFFFFFF, 0x40000000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFF0, 0xFFFFFFFF};
  auto w0 = m.width, h0 = m.height, s0 = m.step;
  for (uint32_t w : ext)
    for (uint32_t h : ext)
      for (uint32_t s : {s0, 0u, 1u, 16u, 0x10000u, 0x10000000u, 0xFFFFFFFFu}) {
        m.width = w, m.height = h, m.step = s;
        fn(cdr::write(m));
        Bytes d;
        d.swap(m.data);
        fn(cdr::write(m));  // without data
        d.swap(m.data);
      }
  m.width = w0, m.height = h0, m.step = s0;
  for (size_t i = 0; i < m.fields.size(); i++)
    for (uint32_t o : ext)
      for (int t = 0; t < 12; t++) {
        auto k = m;
        k.fields[i].offset = o;
        k.fields[i].type = uint8_t(t == 11 ? 255 : t);
        fn(cdr::write(k));
      }
  m.fields.clear();
  fn(cdr::write(m));
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  const bool T = vh::thorough();
  // (1) valid messages
  static const std::pair<uint32_t, uint32_t> dims[] = {{1, 0}, {0, 3}, {1, 1}, {1, 2}, {3, 5}, {1, 70}, {20, 50}, {1, 3000}};
  for (auto& c : all_configs({3, 4, 5}, true))
    for (size_t l = 0; l < kLay.size(); l++)
      vh::run_case_l([&] { return vh::fmt("valid/%s/%s", c.str().c_str(), lname(kLay[l]).c_str()); }, [&] {
        for (int packing = 0; packing < 3; packing++)
          for (auto [h, w] : dims)
            for (int style = 0; style < 3; style++) valid(c, kLay[l], packing, h, w, style, (style + packing) & 1);
        if (T || (!c.threads && l == size_t(c.version)))
          for (uint32_t w : {32767u, 32768u, 32769u, 65537u}) valid(c, kLay[l], int(l % 3), 1, w, int(w % 3), false);
      });
  // (1b) many fields: long headers
  for (int nf : wide_counts(T))
    vh::run_case(vh::fmt("many-fields/%d", nf), [&] {
      quietly([&] {  // such clouds need more scratch memory
      for (int rot = 0; rot < 4; rot++)
        for (auto [h, w] : {std::pair<uint32_t, uint32_t>{1, 0}, {1, 2}, {2, 3}, {1, 70}}) valid(Config{3 + (rot + nf) % 3, EncodingOptions::LOSSY, CompressionOption(rot % 3), false}, wide_kinds(nf, rot * 5), rot % 3, h, w, rot % 3, rot & 1);
      }) || (vh::fail("exception", "%s", g_why.c_str()), 0);
    });
  // (2) mutations of valid streams, messages and texts
  std::vector<Config> mc{{3, EncodingOptions::LOSSY, CompressionOption::ZSTD}, {4, EncodingOptions::LOSSLESS, CompressionOption::LZ4}, {5, EncodingOptions::LOSSY, CompressionOption::NONE},
                         {5, EncodingOptions::LOSSY, CompressionOption::ZSTD}, {5, EncodingOptions::NONE, CompressionOption::NONE}, {5, EncodingOptions::LOSSLESS, CompressionOption::LZ4}};
  if (T) mc = all_configs({3, 4, 5}, false);
  for (auto& c : mc)
    for (size_t l : {0, 1, 6, 7})
      for (int be = 0; be < 2; be++) {
        if (be && l != 1) continue;
        for (int part = 0; part < 4; part++)
          vh::run_case_l([&] { return vh::fmt("mutate/%s/%s/%d/%d", c.str().c_str(), lname(kLay[l]).c_str(), be, part); }, [&] {
            uint32_t step;
            auto f = layout(kLay[l], int(l % 3), step, 0.25f);
            const Bytes cloud = make_cloud(6, f, step, 1);
            EncodingInfo info;
            const Bytes msg = compressed_message(c, f, step, cloud, 2, 3, be, &info);
            mutations(msg, part, 4, [&](const Bytes& b) { any_message(b, false); });
            const Bytes data = cdr::read(msg, true).data;
            mutations(data, part, 4, [&](const Bytes& b) { any_data(b); });
            // the stream corrupted inside of an intact message
            mutations(data, part, 4, [&](const Bytes& b) {
              auto m = cdr::read(msg, true);
              m.data = b;
              any_message(cdr::write(m), false);
            });
            const Bytes raw = cdr::write(cdr::from_layout(be, "m", 2, 3, f, step, make_cloud(6, f, step, 2)));
            mutations(raw, part, 4, [&](const Bytes& b) { any_message(b, true); });
            // larger buffer than the worst case: the direct path of EncodePointcloudMessage
            if (part == 0) {
              auto big = cdr::from_layout(be, "m", 2, 300, f, step, make_cloud(600, f, step, 2));
              const Bytes bw = cdr::write(big);
              for (size_t i = 0; i < std::min<size_t>(bw.size(), 160); i++)
                for (int v : {0, 255, bw[i] + 1}) {
                  Bytes m = bw;
                  m[i] = uint8_t(v);
                  any_message(m, true);
                }
            }
            std::string y = EncodingInfoToYAML(info);
            for (auto& data2 : {cloud, make_cloud(200, f, step, 2), Bytes{}}) {
              Bytes yb(y.begin(), y.end());
              mutations(yb, part, 4, [&](const Bytes& b) { any_yaml(std::string(b.begin(), b.end()), data2); });
            }
          });
      }
  // (3) all combinations of extreme dimensions; the stream declares more or fewer points than the message
  for (int be = 0; be < 2; be++)
    for (size_t l : {0, 1})
      vh::run_case(vh::fmt("members/%d/%zu", be, l), [&] {
        uint32_t step;
        auto f = layout(kLay[l], 0, step, 0.25f);
        const Bytes cloud = make_cloud(6, f, step, 1);
        Config c{5, EncodingOptions::LOSSY, CompressionOption::ZSTD};
        auto m = cdr::read(compressed_message(c, f, step, cloud, 1, 6, be), true);
        members(m, [&](const Bytes& b) { any_message(b, false); });
        members(cdr::from_layout(be, "m", 1, 6, f, step, cloud), [&](const Bytes& b) { any_message(b, true); });
        // enough room for a result, whatever the dimensions are
        members(cdr::from_layout(be, std::string(3000, 'm'), 1, 6, f, step, cloud), [&](const Bytes& b) { any_message(b, true); });
        for (uint32_t w : {0u, 1u, 5u, 6u, 7u, 12u, 0x40000000u, 0xFFFFFFFFu})
          for (uint32_t h : {0u, 1u, 2u, 4u, 0x10000u, 0x40000000u}) {
            auto k = m;
            auto info = make_info(c, f, step, 6, 1);
            const Bytes payload = [&] {
              PointcloudEncoder e(info);
              return enc_view(e, cloud, false);
            }();
            info.width = w;
            info.height = h;
            for (int bin = 0; bin < 2; bin++) {
              Bytes hd;
              EncodeHeader(info, hd, bin ? HeaderEncoding::BINARY : HeaderEncoding::YAML);
              hd.insert(hd.end(), payload.begin(), payload.end());
              any_data(hd);
              k.data = hd;
              any_message(cdr::write(k), false);
            }
            any_yaml(EncodingInfoToYAML(info), cloud);
            any_yaml(EncodingInfoToYAML(info), {});
            any_yaml(EncodingInfoToYAML(info), make_cloud(5000, f, step, 2));
          }
      });
  // (4) histories: every sequence of calls gives what each call gives alone
  {
    struct Call {
      std::string name;
      std::function<Bytes()> fn;
    };
    auto calls = std::make_shared<std::vector<Call>>();
    auto msgs = std::make_shared<std::vector<Bytes>>();
    for (int k = 0; k < 4; k++) {
      uint32_t step;
      auto f = layout(kLay[k == 1 ? 1 : 0], k % 3, step, 0.25f);
      uint32_t pts = k == 0 ? 40 : k == 1 ? 300 : k == 2 ? 3 : 0;
      const Bytes cloud = make_cloud(pts, f, step, 2);
      Config c{k == 1 ? 4 : 5, EncodingOptions::LOSSY, k == 2 ? CompressionOption::LZ4 : CompressionOption::ZSTD};
      Bytes z = compressed_message(c, f, step, cloud, 1, pts, k == 1);
      msgs->push_back(z);
      if (k < 2) {
        msgs->push_back(Bytes(z.begin(), z.end() - 30));
        Bytes x = z;
        x[x.size() - 40] ^= 0x55;
        msgs->push_back(x);
      }
    }
    auto conv = [msgs](int i) {
      const Bytes& b = (*msgs)[i];
      static Bytes out(1 << 20);
      uint32_t r = call("ConvertCompressedMsgToPointCloud2Msg", [&] { return cldn_ConvertCompressedMsgToPointCloud2Msg((uintptr_t)b.data(), (uint32_t)b.size(), (uintptr_t)out.data()); });
      return Bytes(out.begin(), out.begin() + r);
    };
    auto decm = [msgs](int i) {
      const Bytes& b = (*msgs)[i];
      static Bytes out(1 << 20);
      std::fill(out.begin(), out.begin() + 20000, 0);
      uint32_t r = call("DecodeCompressedMessage", [&] { return cldn_DecodeCompressedMessage((uintptr_t)b.data(), (uint32_t)b.size(), (uintptr_t)out.data()); });
      return Bytes(out.begin(), out.begin() + r);
    };
    for (int i = 0; i < (int)msgs->size(); i++) {
      calls->push_back({vh::fmt("convert%d", i), [=] { return conv(i); }});
      calls->push_back({vh::fmt("decode%d", i), [=] { return decm(i); }});
    }
    const int n = (int)calls->size();
    for (int a = 0; a < n; a++)
      vh::run_case(vh::fmt("history/%d", a), [&] {
        // reference: the library, fresh objects
        std::vector<Bytes> want(n);
        for (int i = 0; i < n; i++) {
          const Bytes& b = (*msgs)[i / 2];
          quietly([&] {
            auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(b.data(), b.size()));
            Bytes w;
            if (i % 2 == 0) cloudini_ros::convertCompressedCloudToPointCloud2(pc, w);
            else w = dec_full(Bytes(pc.data.data(), pc.data.data() + pc.data.size()), 0).data;
            want[i] = w;
          });
        }
        all_sequences(n, 0, T ? 3 : 2, [&](const std::vector<int>& d) {
          std::vector<int> s{a};
          s.insert(s.end(), d.begin(), d.end());
          for (int i : s) {
            Bytes r = (*calls)[i].fn();
            NEED(r == want[i], "history", "%s gives another result (%zu bytes instead of %zu) after other calls", (*calls)[i].name.c_str(), r.size(), want[i].size());
          }
          vh::validated();
        });
      });
  }
  return vh::finish();
}
