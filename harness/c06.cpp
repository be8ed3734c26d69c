// C06: the advertised worst-case size is a bound, and buffers of any size are respected.
// Built with AddressSanitizer: the encoder's own scratch memory is covered as well as the caller's buffer.
#include "gen.hpp"
using namespace cl;

static const size_t P = 4096;
static uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t h = a * 0x9E3779B97F4A7C15ull + b * 0xD1B54A32D192ED03ull + 0x1234567;
  h ^= h >> 31;
  h *= 0xBF58476D1CE4E5B9ull;
  h ^= h >> 29;
  h *= 0x94D049BB133111EBull;
  return h ^ (h >> 32);
}
enum Style { kExtremes, kConstThenExtremes, kRampThenExtremes, kPaletteThenRandom, kRandom, kWindows, kConst, kRampThenPalette, kBlocksThenRandom, kConstThenZigzag, kStyles };
static const char* kStyleName[] = {"extremes", "const>extremes", "ramp>extremes", "palette>random", "random", "windows", "const", "ramp>palette", "blocks>random", "const>zigzag"};

static uint64_t int_extreme(FT t, size_t p) {
  int b = size_of(t) * 8;
  if (b == 64) return (p % 2 ? 3ull << 60 : 0 - (3ull << 60)) + (p / 3) % 5;  // |delta| = 1.5 * 2^62: the longest varint
  bool sgn = t == FT::INT8 || t == FT::INT16 || t == FT::INT32 || t == FT::INT64;
  uint64_t lo = sgn ? 1ull << (b - 1) : 0, hi = sgn ? (1ull << (b - 1)) - 1 : ~0ull;
  // deltas of maximal length, and no two consecutive equal ones
  return p % 2 ? hi - (p / 2) % 7 : lo + (p / 3) % 5;
}
static void fill_adv(Bytes& b, size_t p, const std::vector<PointField>& f, uint32_t step, int style) {
  for (size_t i = 0; i < f.size(); i++) {
    size_t off = p * step + f[i].offset;
    const double res = f[i].resolution ? double(*f[i].resolution) : 1.0;
    bool before = p < P;
    uint64_t v = 0;
    double d = 0;
    bool raw = false;  // floats: use v as bits
    switch (style) {
      case kExtremes: v = int_extreme(f[i].type, p); d = (p % 2 ? 1.0 : -1.0) * res * (f[i].type == FT::FLOAT32 ? 1.07e9 : 3e18); break;
      case kConstThenExtremes: v = before ? 5 : int_extreme(f[i].type, p); d = before ? 5 : (p % 2 ? 1.0 : -1.0) * res * 3e18; break;
      case kRampThenExtremes: v = before ? p * 3 : int_extreme(f[i].type, p); d = before ? p * res : (p % 2 ? 1.0 : -1.0) * res * 2e9; break;
      case kPaletteThenRandom: v = before ? mix(1, p % 5) : mix(p, i); raw = true; break;
      case kRandom: v = mix(p, i); raw = true; break;
      case kWindows: {  // neighbouring differences whose significant bits never fit the window of the previous difference
        uint64_t o = ((p + 1) / 2) & 1, e = (p / 2) & 1;
        v = (mix(p, i) & 0x3ffffffffffffffcull) | o << 63 | o << 1 | e << 62 | e;
      }
        raw = true; break;
      case kConst: v = 77; d = 77; break;
      case kRampThenPalette: v = before ? p * 3 : mix(2, p % 3); d = p % 3; break;
      case kBlocksThenRandom: v = before ? mix(3, p / 64) : mix(p, i); raw = true; break;
      case kConstThenZigzag: v = before ? 9 : (p % 2 ? p : ~p); d = p % 2 ? p * 1e5 : -1e5 * p; break;
    }
    if (f[i].type == FT::FLOAT32) {
      float x = float(d);
      if (raw) {
        uint32_t u = uint32_t(v >> 32);
        memcpy(&x, &u, 4);
      }
      put(b, off, x);
    } else if (f[i].type == FT::FLOAT64) {
      if (raw) memcpy(&d, &v, 8);
      put(b, off, d);
    } else
      put_raw(b, off, v, size_of(f[i].type));
  }
}
static Bytes adv_cloud(size_t n, const std::vector<PointField>& f, uint32_t step, int style) {
  Bytes b(n * step);
  for (size_t i = 0; i < b.size(); i++) b[i] = uint8_t(mix(i, 99));
  for (size_t p = 0; p < n; p++) fill_adv(b, p, f, step, style);
  return b;
}
// encode into an exact heap buffer of `cap` bytes (sanitizer red zones on both sides); returns the bytes, or nothing if it threw
static std::optional<Bytes> enc_exact(PointcloudEncoder& e, const Bytes& cloud, bool header, size_t cap) {
  std::unique_ptr<uint8_t[]> in(new uint8_t[cloud.size()]);
  memcpy(in.get(), cloud.data(), cloud.size());
  std::unique_ptr<uint8_t[]> out(new uint8_t[cap]);
  BufferView v(out.get(), cap);
  vh::transition();
  size_t n;
  try {
    n = e.encode(ConstBufferView(in.get(), cloud.size()), v, header);
  } catch (const std::exception& x) {
    return std::nullopt;
  }
  if (n > cap) vh::fail("bound", "encode() returned %zu for a buffer of %zu bytes", n, cap);
  return Bytes(out.get(), out.get() + n);
}
static void bound(const Config& c, const std::vector<PointField>& f, uint32_t step, const Bytes& cloud, const std::string& what) {
  size_t n = cloud.size() / step;
  auto info = make_info(c, f, step, (uint32_t)n);
  PointcloudEncoder e(info);
  for (int header = 0; header < 2; header++) {
    size_t cap = MaxCompressedSize(info, n, header);
    auto r = enc_exact(e, cloud, header, cap);
    if (!r) vh::fail("refused", "%s %s: encode() failed with a buffer of the advertised size (%zu bytes, %zu points)", c.str().c_str(), what.c_str(), cap, n);
    if (!header) {
      vh::state_bytes(r->data(), r->size());
      auto& w = vh::g().extra["max_fill_permille"];
      w = std::max<uint64_t>(w, r->size() * 1000 / std::max<size_t>(cap, 1));
      if (getenv("C06_FILL") && n > 4096) fprintf(stderr, "FILL %zu %s %s n=%zu %.3f of %.3f\n", r->size() * 1000 / cap, c.str().c_str(), what.c_str(), n, double(r->size()) / n, double(cap) / n);
      Bytes o = dec_payload(info, r->data(), r->size());
      check_cloud(c, info, cloud, o, 0xCD, c.str() + " " + what);
    } else {
      Bytes v = enc_fresh(info, cloud);
      if (v != *r) vh::fail("differs", "%s %s: the two encode() overloads produce different streams", c.str().c_str(), what.c_str());
    }
    vh::validated();
  }
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  const bool T = vh::thorough();
  const int K = (int)kKinds.size();
  std::vector<std::vector<int>> lay;
  for (int a = 0; a < K; a++) lay.push_back({a});
  for (int a = 0; a < K; a++) lay.push_back({a, (a * 5 + 1) % K});
  lay.insert(lay.end(), {{0, 0, 0}, {0, 0, 0, 0}, {0, 0, 0, 8}, {0, 0, 0, 6, 10, 2}, {6, 7, 8, 9, 10, 11}, {11, 11, 11, 11}, {10, 10, 3, 3}, {2, 2, 3, 3, 1, 1}, {6, 6, 6, 6, 6, 6, 6, 6}, {3}, {4, 5}});
  // (1) sizes around the probe and chunk limits, adversarial contents
  std::vector<size_t> sizes{1, 2, 4095, 4096, 4097, 4200, 32768, 32769};
  if (T) sizes.insert(sizes.end(), {3, 8191, 8192, 32767, 65536, 65537, 98305});
  for (auto& c : all_configs())
    for (auto& k : lay)
      for (int style = 0; style < kStyles; style++) {
        if (!T && c.threads && style % 3) continue;
        vh::run_case_l([&] { return vh::fmt("bound/%s/%s/%s", c.str().c_str(), lname(k).c_str(), kStyleName[style]); }, [&] {
          auto sz = sizes;
          if (!T && c.version == 5 && c.enc == EncodingOptions::LOSSY && style == kRampThenExtremes) sz.push_back(65537);
          for (size_t n : sz) {
            if (!T && n >= 32768 && (c.version == 3 || (n == 32768 && c.comp == CompressionOption::ZSTD))) continue;
            uint32_t step;
            auto f = layout(k, T || n < 10 ? int(n % 3) : 0, step, 0.25f);
            bound(c, f, step, adv_cloud(n, f, step, style), vh::fmt("%s %s", lname(k).c_str(), kStyleName[style]));
            vh::beat();
          }
        });
      }
  // (1b) many fields
  for (auto& c : all_configs())
    for (int nf : {9, 16, 17, 23, 24, 25, 26, 37, 38, 64, 65, 127, 128, 129, 256, 300})
      vh::run_case_l([&] { return vh::fmt("bound-many-fields/%s/%d", c.str().c_str(), nf); }, [&] {
        for (int kind = -1; kind < K; kind++)
          for (int style : {int(kExtremes), int(kRandom), int(kRampThenExtremes)}) {
            if (!T && style == kRandom && kind >= 0 && kind != 1 && kind != 3) continue;
            std::vector<PointField> f;
            uint32_t step = 0;
            for (int i = 0; i < nf; i++) {
              const Kind& kd = kKinds[kind < 0 ? (i * 5 + nf) % K : kind];
              f.push_back({vh::fmt("f%d", i), step, kd.t, kd.res ? std::optional<float>(0.25f) : std::nullopt});
              step += size_of(kd.t);
            }
            for (size_t n : {size_t(1), size_t(2), size_t(9), size_t(4200)}) {
              if (n > 10 && (c.threads || nf > 65 || (!T && (kind >= 0 || nf % 8 > 1)))) continue;
              bound(c, f, step, adv_cloud(n, f, step, style), vh::fmt("%d fields %s", nf, kStyleName[style]));
              vh::beat();
            }
          }
      });
  // (2) every buffer size, tiny clouds: nothing outside of the buffer is touched, the result is right or an exception
  std::vector<std::vector<int>> lay2{{0, 0, 0}, {3}, {10}, {6, 7}, {0, 0, 0, 0, 8}, {4}, {1, 2}};
  for (auto& c : all_configs())
    for (auto& k : lay2)
      for (size_t n : {0, 1, 5})
        vh::run_case_l([&] { return vh::fmt("buffers/%s/%s/%zu", c.str().c_str(), lname(k).c_str(), n); }, [&] {
          uint32_t step;
          auto f = layout(k, 0, step, 0.25f);
          Bytes cloud = adv_cloud(n, f, step, kExtremes);
          auto info = make_info(c, f, step, (uint32_t)n);
          PointcloudEncoder e(info);
          for (int header = 0; header < 2; header++) {
            size_t cap = MaxCompressedSize(info, n, header);
            auto good = enc_exact(e, cloud, header, cap);
            if (!good) vh::fail("refused", "encode() failed with a buffer of the advertised size");
            for (size_t b = 0; b <= cap + 3; b++) {
              // all small sizes and all sizes near the limits; a stride in the (long, uniform) middle
              if (!T && b > 64 && b + 40 < good->size() && b % 17) continue;
              if (!T && b > good->size() + 40 && b + 24 < cap && b % 61) continue;
              auto r = enc_exact(e, cloud, header, b);
              if (r && *r != *good) vh::fail("small-buffer", "%s: with a buffer of %zu bytes encode() returned another stream", c.str().c_str(), b);
              if (!r && b >= cap) vh::fail("refused", "encode() failed with a buffer of %zu >= %zu bytes", b, cap);
              vh::outcome(r ? "fits" : "refused");
              vh::validated();
            }
            auto again = enc_exact(e, cloud, header, cap);
            if (!again || *again != *good) vh::fail("after-small-buffer", "%s: after refusals the encoder produces another stream", c.str().c_str());
          }
          vh::beat();
        });
  return vh::finish();
}
