// C05: the adaptive coding of integer columns is invisible: whatever the column looked like when the mode was chosen
// and whatever it looks like afterwards, the values are restored.
#include "ref.hpp"
using namespace cl;

static const FT kT[] = {FT::INT16, FT::UINT16, FT::INT32, FT::UINT32, FT::INT64, FT::UINT64};
static const int P = 13;
static uint64_t mix(uint64_t h) {
  h *= 0x9E3779B97F4A7C15ull;
  h ^= h >> 29;
  h *= 0xBF58476D1CE4E5B9ull;
  return h ^ (h >> 32);
}
// value number i (global index) of a segment that starts at `s0` with pattern p
static uint64_t pat(int p, size_t i, size_t s0, size_t len, uint64_t seed, int bits) {
  const uint64_t top = 1ull << (bits - 1);
  size_t k = i - s0;
  switch (p) {
    case 0: return 7 + seed;
    case 1: return k + seed;
    case 2: return mix(i + seed * 77);                          // unrelated values
    case 3: return mix(i + seed) % 16 * 1000003;                // small palette
    case 4: return (i & 1) ? top : 0;                           // largest deltas
    case 5: return (k / 129) * 12345;                           // constant runs
    case 6: return (k % 65) + (k / 65) * 3;                     // linear runs
    case 7: return mix(mix(i) % 300);                           // medium palette
    case 8: return k * 0x0101010101010101ull;                   // steps that wrap
    case 9: return (k == 0 || k + 1 == len) ? ~0ull : 5;        // outliers at both ends of the segment
    case 10: return ~0ull;
    case 11: return mix(mix(i) % 5000);                         // large palette
    case 12: return (k % 3 == 0) ? top - 1 : (k % 3 == 1) ? top : 1;
  }
  return 0;
}
struct Col { FT t; std::vector<int> pats; uint64_t seed; };
// segment borders: probe | rest of chunk | chunk | ...
static const size_t kCuts[] = {0, 4096, 32768, 65536, 98304};

static Bytes build(const std::vector<Col>& cols, const std::vector<PointField>& f, uint32_t step, size_t n) {
  Bytes b(n * step, 0x11);
  for (size_t c = 0; c < cols.size(); c++) {
    const int sz = size_of(cols[c].t);
    for (size_t s = 0; s + 1 < 5 && kCuts[s] < n; s++) {
      size_t e = std::min(n, kCuts[s + 1]);
      int p = cols[c].pats[std::min(s, cols[c].pats.size() - 1)];
      for (size_t i = kCuts[s]; i < e; i++) {
        uint64_t v = pat(p, i, kCuts[s], e - kCuts[s], cols[c].seed, 8 * sz);
        memcpy(b.data() + i * step + f[c].offset, &v, sz);
      }
    }
  }
  return b;
}
static void count_modes(const Driver& d, const Bytes& payload, size_t n) {
  if (d.c.comp != CompressionOption::NONE) return;
  size_t m[4] = {0, 0, 0, 0};
  try {
    ref::decode_payload(d.dinfo(n), payload.data(), payload.size(), 0, m);
  } catch (const std::exception&) {
    return;  // wire format conformance is C13's subject
  }
  static const char* N[] = {"delta_varint", "palette", "rle", "delta_rle"};
  for (int i = 0; i < 4; i++)
    if (m[i]) vh::extra(std::string("sections_") + N[i], m[i]);
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  const bool T = vh::thorough();
  std::vector<CompressionOption> comps{CompressionOption::NONE, CompressionOption::LZ4, CompressionOption::ZSTD};
  // (1) one column, every combination of patterns in probe / rest of the first chunk / second chunk (/ third chunk)
  for (auto comp : comps)
    for (FT t : kT)
      for (int a = 0; a < P; a++)
        for (int b = 0; b < P; b++)
          vh::run_case_l([&] { return vh::fmt("phases/%s/%s/%d-%d", cname(comp), tname(t), a, b); }, [&] {
            Config c{5, EncodingOptions::LOSSY, comp, false};
            uint32_t sz = size_of(t);
            std::vector<PointField> f{{"i", 0, t, std::nullopt}};
            Driver d(c, f, sz);
            for (int g = 0; g < P; g++) {
              if (comp != CompressionOption::NONE && !T && g != (a + b) % P) continue;
              size_t n = T ? 65536 + 1000 : 32768 + 1000;
              Bytes cloud = build({{t, {a, b, g, (g + 5) % P}, 3}}, f, sz, n);
              count_modes(d, d.roundtrip(cloud, "phases"), n);
              vh::beat();
            }
          });
  // (2) several columns committing different modes at the same time, mixed with float and byte fields
  for (int a = 0; a < P; a++)
    for (int b = 0; b < P; b++)
      vh::run_case_l([&] { return vh::fmt("columns/%d-%d", a, b); }, [&] {
        Config c{5, EncodingOptions::LOSSY, (a + b) % 2 ? CompressionOption::ZSTD : CompressionOption::NONE, false};
        std::vector<PointField> f{{"t", 2, FT::UINT64, std::nullopt}, {"x", 12, FT::FLOAT32, 0.01f}, {"r", 16, FT::UINT16, std::nullopt}, {"b", 10, FT::UINT8, std::nullopt}, {"z", 18, FT::INT32, std::nullopt}};
        Driver d(c, f, 22);
        for (int g = 0; g < (T ? P : 3); g++) {
          size_t n = 36000;
          std::vector<Col> cols{{FT::UINT64, {a, b, g}, 1}, {FT::FLOAT32, {0}, 0}, {FT::UINT16, {b, g, a}, 2}, {FT::UINT8, {2}, 5}, {FT::INT32, {g, a, b}, 9}};
          Bytes cloud = build(cols, f, 22, n);
          for (size_t i = 0; i < n; i++) put<float>(cloud, i * 22 + 12, float(int(i % 2000) - 1000) * 0.37f);
          count_modes(d, d.roundtrip(cloud, "columns"), n);
          vh::beat();
        }
      });
  // (3) cloud sizes around the probe and chunk boundaries
  for (FT t : kT)
    for (size_t n : {1, 2, 3, 5, 4095, 4096, 4097, 4098, 4160, 32767, 32768, 32769, 36863, 36864, 36865, 65537})
      vh::run_case_l([&] { return vh::fmt("size/%s/%zu", tname(t), n); }, [&] {
        Config c{5, EncodingOptions::LOSSY, CompressionOption::NONE, false};
        uint32_t sz = size_of(t);
        std::vector<PointField> f{{"i", 0, t, std::nullopt}};
        Driver d(c, f, sz);
        for (int a = 0; a < P; a++)
          for (int b = 0; b < P; b++) {
            count_modes(d, d.roundtrip(build({{t, {a, b, b}, 3}}, f, sz, n), "size"), n);
            vh::beat();
            if (n <= 4096) break;
          }
      });
  // (4) number of distinct values: every width of the packed indices, from the first points on or growing later
  for (FT t : kT) {
    std::set<size_t> uniq;
    for (size_t k = 0; k <= 15; k++)
      for (int dlt = -1; dlt <= 1; dlt++) uniq.insert(std::max<long>(1, (1l << k) + dlt));
    for (size_t k = 1; k <= (T ? 130 : 34); k++) uniq.insert(k);
    for (size_t u : uniq)
      vh::run_case_l([&] { return vh::fmt("palette/%s/%zu", tname(t), u); }, [&] {
        Config c{5, EncodingOptions::LOSSY, CompressionOption::NONE, false};
        uint32_t sz = size_of(t);
        std::vector<PointField> f{{"i", 0, t, std::nullopt}};
        Driver d(c, f, sz);
        for (size_t n : {size_t(70), size_t(4096), size_t(5000), size_t(32768), size_t(40000), size_t(66000)})
          for (int style = 0; style < 3; style++) {
            if (u > n) continue;
            Bytes b(n * sz);
            for (size_t i = 0; i < n; i++) {
              // style 0: random order; style 1: few values in the probe, u later; style 2: u in the probe, all distinct later
              size_t idx = style == 0 ? (i < u ? i : mix(i) % u) : style == 1 ? (i < 4096 ? mix(i) % 3 : (i - 4096 < u ? i - 4096 : mix(i) % u)) : (i < 4096 ? mix(i) % u : i);
              uint64_t v = mix(idx + 1);
              if (sz == 2) v = idx * 40503;  // stays a bijection on 16 bits
              memcpy(b.data() + i * sz, &v, sz);
            }
            count_modes(d, d.roundtrip(b, "palette"), n);
            vh::beat();
          }
      });
  }
  // (5) run lengths at every varint boundary, constant and linear runs, cut by the probe or by the chunk at every phase
  for (FT t : kT)
    for (size_t r : {1, 2, 3, 63, 64, 126, 127, 128, 129, 255, 256, 2047, 4095, 4096, 4097, 8191, 16382, 16383, 16384, 16385, 28672, 32767, 32768, 32769})
      vh::run_case_l([&] { return vh::fmt("runs/%s/%zu", tname(t), r); }, [&] {
        Config c{5, EncodingOptions::LOSSY, CompressionOption::NONE, false};
        uint32_t sz = size_of(t);
        std::vector<PointField> f{{"i", 0, t, std::nullopt}};
        Driver d(c, f, sz);
        for (int lin = 0; lin < 4; lin++)
          for (size_t phase : {size_t(0), size_t(1), r / 2, r - 1})
            for (size_t n : {size_t(3000), size_t(4097), size_t(33000)}) {
              Bytes b(n * sz);
              uint64_t val = 0;
              for (size_t i = 0; i < n; i++) {
                size_t run = (i + phase) / r, k = (i + phase) % r;
                val = lin == 0 ? mix(run) : lin == 1 ? mix(run) + k * 3 : lin == 2 ? (run & 1 ? 5 : 6) : mix(run) - k * mix(run / 2);
                memcpy(b.data() + i * sz, &val, sz);
              }
              count_modes(d, d.roundtrip(b, "runs"), n);
              vh::beat();
            }
      });
  // (6) short columns: every sequence over a small alphabet (mode decision at the end of a small cloud)
  for (FT t : kT)
    for (int first = 0; first < 5; first++)
      vh::run_case_l([&] { return vh::fmt("short/%s/%d", tname(t), first); }, [&] {
        Config c{5, EncodingOptions::LOSSY, CompressionOption::NONE, false};
        uint32_t sz = size_of(t);
        std::vector<PointField> f{{"i", 0, t, std::nullopt}};
        Driver d(c, f, sz);
        const uint64_t A[] = {0, 1, 2, ~0ull, 1ull << (8 * sz - 1)};
        // each symbol is repeated 1, 5 or 40 times so that every mode can win
        all_sequences(5, 1, T ? 6 : 5, [&](const std::vector<int>& s) {
          if (s[0] != first) return;
          for (int rep : {1, 5, 40}) {
            Bytes b;
            for (int x : s)
              for (int k = 0; k < rep; k++) {
                uint64_t v = A[x] + (x == 2 ? k : 0);
                size_t at = b.size();
                b.resize(at + sz);
                memcpy(b.data() + at, &v, sz);
              }
            count_modes(d, d.roundtrip(b, "short"), b.size() / sz);
          }
          vh::beat();
        });
      });
  // (7) palettes of values that differ only in some bits: at every bit position
  for (FT t : kT)
    for (int sh = 0; sh < 8 * (int)size_of(t); sh++)
      vh::run_case_l([&] { return vh::fmt("bits/%s/%d", tname(t), sh); }, [&] {
        Config c{5, EncodingOptions::LOSSY, CompressionOption::NONE, false};
        const uint32_t sz = size_of(t);
        Driver d(c, {{"i", 0, t, std::nullopt}}, sz);
        for (size_t u : {size_t(2), size_t(3), size_t(200), size_t(1500)})
          for (uint64_t base : {0ull, ~0ull, 0x0123456789ABCDEFull})
            for (size_t n : {size_t(4096), size_t(9000)}) {
              Bytes b(n * sz);
              for (size_t i = 0; i < n; i++) {
                const uint64_t v = base ^ ((mix(i) % u) << sh) ^ (i % 3 == 0 && sh > 11 ? mix(i * 7) % 3 : 0);
                memcpy(b.data() + i * sz, &v, sz);
              }
              count_modes(d, d.roundtrip(b, "bits"), n);
            }
        vh::beat();
      });
  return vh::finish();
}
