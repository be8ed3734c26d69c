// C02: lossy floats: error <= resolution/2, NaN stays NaN, special values never disturb their neighbours.
#include "cloud.hpp"
using namespace cl;

static const float kRes[] = {0.001f, 0.01f, 0.25f, 1.0f, 1e-6f, 3.7f, 1000.f};
static double unit_value(int k, double r) {
  static const double nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
  switch (k) {
    case 0: return 0;
    case 1: return 1 * r;
    case 2: return nan;
    case 3: return -64 * r;
    case 4: return inf;
    case 5: return 2.1e9 * r;
    case 6: return -0.5 * r;
    case 7: return 8191.5 * r;
    case 8: return -inf;
    case 9: return -2.1e9 * r;
    case 10: return 0.4999 * r;
    case 11: return 0.5001 * r;
    case 12: return -nan;
    case 13: return 1048576.5 * r;
    case 14: return -1 * r;
    case 15: return 3.0e38;
    case 16: return 1e-40;
    case 17: return 63 * r;
    case 18: return -0.0;
    case 19: return 9.3e18 * r;  // beyond the 64-bit quanta
    case 20: return -4.0e18 * r;
    case 21: return 5.1e9 * r;   // beyond 32-bit quanta
    case 22: return -7.0e14 * r;
    default: return 1e300;       // infinite as float
  }
}
static const int kUnits = 24;

static void put_val(Bytes& b, size_t off, FT t, double v) {
  if (t == FT::FLOAT32) put<float>(b, off, (float)v);
  else put<double>(b, off, v);
}
struct Layout {
  const char* name;
  std::vector<FT> types;
};
static std::vector<PointField> fields_of(const Layout& l, float res, bool mixed_res, uint32_t& step) {
  std::vector<PointField> f;
  step = 0;
  int i = 0;
  for (FT t : l.types) {
    float r = mixed_res ? res * (1 + i) : res;
    f.push_back({vh::fmt("f%d", i++), step, t, is_int(t) ? std::nullopt : std::optional<float>(r)});
    step += size_of(t);
  }
  return f;
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  const bool T = vh::thorough();
  std::vector<Layout> scalar{{"f32", {FT::FLOAT32}}, {"f64", {FT::FLOAT64}}};
  std::vector<Layout> multi{{"f32x2", {FT::FLOAT32, FT::FLOAT32}},
                            {"f32x3", {FT::FLOAT32, FT::FLOAT32, FT::FLOAT32}},
                            {"f32x4", {FT::FLOAT32, FT::FLOAT32, FT::FLOAT32, FT::FLOAT32}},
                            {"f32x3+f64", {FT::FLOAT32, FT::FLOAT32, FT::FLOAT32, FT::FLOAT64}},
                            {"f32x3+u16", {FT::FLOAT32, FT::FLOAT32, FT::FLOAT32, FT::UINT16}},
                            {"f64+f32", {FT::FLOAT64, FT::FLOAT32}},
                            {"u16+f32x3", {FT::UINT16, FT::FLOAT32, FT::FLOAT32, FT::FLOAT32}}};
  for (int ver : {3, 4, 5})
    for (auto comp : {CompressionOption::NONE, CompressionOption::LZ4, CompressionOption::ZSTD}) {
      Config c{ver, EncodingOptions::LOSSY, comp, false};
      for (auto& l : scalar)
        for (float res : kRes)
          vh::run_case(vh::fmt("seq/%s/%s/res%g", c.str().c_str(), l.name, res), [&] {
            uint32_t step;
            auto f = fields_of(l, res, false, step);
            Driver d(c, f, step);
            all_sequences(kUnits, 1, comp == CompressionOption::NONE ? (T ? 4 : 3) : 2, [&](const std::vector<int>& s) {
              Bytes b(s.size() * step);
              for (size_t i = 0; i < s.size(); i++) put_val(b, i * step, l.types[0], unit_value(s[i], res));
              d.roundtrip(b, l.name);
              vh::beat();
            });
          });
      for (auto& l : multi)
        for (int ri = 0; ri < 3; ri++) {
          const float res = kRes[ri];
          const bool mixed = ri == 1;
          vh::run_case(vh::fmt("points/%s/%s/res%g", c.str().c_str(), l.name, res), [&] {
            uint32_t step;
            auto f = fields_of(l, res, mixed, step);
            Driver d(c, f, step);
            const int nf = (int)l.types.size();
            auto fill = [&](Bytes& b, size_t p, const int* s) {
              for (int i = 0; i < nf; i++) {
                if (is_int(l.types[i])) put_raw(b, p * step + f[i].offset, s[i] * 4099, size_of(l.types[i]));
                else put_val(b, p * step + f[i].offset, l.types[i], unit_value(s[i], *f[i].resolution));
              }
            };
            // one point: every combination of values in the fields
            const int A = nf <= 3 ? (comp == CompressionOption::NONE ? kUnits : 6) : (T ? 12 : comp == CompressionOption::NONE ? 8 : 4);
            vh::odometer(std::vector<int>(nf, A), [&](const std::vector<int>& s) {
              Bytes b(step * 2);
              fill(b, 0, s.data());
              std::vector<int> z(nf, 1);
              fill(b, 1, z.data());  // an ordinary neighbour after the special point
              d.roundtrip(b, l.name);
              vh::beat();
            });
            // two points: every pair of points over the reduced alphabet
            const int R = comp != CompressionOption::NONE ? 2 : nf == 4 ? (T ? 5 : 3) : nf == 3 ? (T ? 7 : 5) : 6;
            vh::odometer(std::vector<int>(2 * nf, R), [&](const std::vector<int>& s) {
              Bytes b(step * 3);
              fill(b, 0, s.data());
              fill(b, 1, s.data() + nf);
              std::vector<int> z(nf, 1);
              fill(b, 2, z.data());
              d.roundtrip(b, l.name);
              vh::beat();
            });
          });
        }
    }
  // dense scan over float bit patterns: thorough = every float, quick = every float with the low mantissa bits in {0..3, all ones}
  struct Scan { int ver; const char* name; std::vector<FT> types; };
  std::vector<Scan> scans{{5, "vec3", {FT::FLOAT32, FT::FLOAT32, FT::FLOAT32}}, {4, "scalar", {FT::FLOAT32}}};
  for (auto& s : scans)
    for (float res : {0.001f, 0.01f, 1.0f})
      for (uint32_t hi = 0; hi < 512; hi++)
        vh::run_case_l([&] { return vh::fmt("scan/%s/res%g/exp%03x", s.name, res, hi); }, [&] {
          Config c{s.ver, EncodingOptions::LOSSY, CompressionOption::NONE, false};
          uint32_t step;
          Layout l{s.name, s.types};
          auto f = fields_of(l, res, false, step);
          Driver d(c, f, step);
          const uint32_t per = 1u << 23;
          const uint32_t stride = T ? 1 : (1u << 7);
          Bytes b;
          size_t lane = 0;
          auto flush = [&] {
            if (b.empty()) return;
            d.roundtrip(b, s.name);
            vh::extra("floats_scanned", b.size() / step);
            b.clear();
            vh::beat();
          };
          for (uint32_t m = 0; m < per; m += stride)
            for (uint32_t low : {0u, 1u, stride - 1}) {
              if (T && low) continue;
              uint32_t bits = (hi << 23) | ((m + low) & (per - 1));
              size_t at = b.size();
              b.resize(at + step);
              put<uint32_t>(b, at + 4 * (lane % s.types.size()), bits);
              lane++;
              if (b.size() >= (1u << 20) * step) flush();
            }
          flush();
        });
  return vh::finish();
}
