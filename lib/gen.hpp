// Field layouts and cloud contents shared by several harnesses.
#pragma once
#include "cloud.hpp"

namespace cl {
struct Kind { FT t; bool res; };
inline const std::vector<Kind> kKinds = {{FT::FLOAT32, true}, {FT::FLOAT32, false}, {FT::FLOAT64, true}, {FT::FLOAT64, false}, {FT::INT8, false}, {FT::UINT8, false},
                                         {FT::INT16, false}, {FT::UINT16, false}, {FT::INT32, false}, {FT::UINT32, false}, {FT::INT64, false}, {FT::UINT64, false}};
inline std::string fname(size_t i) { return i < 26 ? std::string(1, char('a' + i)) : vh::fmt("field_%zu", i); }
// many fields: kinds in turn
inline std::vector<int> wide_kinds(int nf, int rot, const std::vector<int>& of = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}) {
  std::vector<int> k;
  for (int i = 0; i < nf; i++) k.push_back(of[(i + rot) % of.size()]);
  return k;
}
inline std::vector<int> wide_counts(bool thorough) {
  if (!thorough) return {8, 9, 16, 17, 24, 25, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300};
  std::vector<int> v;
  for (int i = 7; i <= 300; i++) v.push_back(i);
  v.push_back(1000);
  return v;
}
// packing 0: packed in order; 1: reversed in memory, with gaps; 2: packed + trailing padding, unaligned start
inline std::vector<PointField> layout(const std::vector<int>& kinds, int packing, uint32_t& step, float res0 = 0.01f) {
  std::vector<PointField> f(kinds.size());
  uint32_t off = packing == 2 ? 1 : packing == 1 ? 2 : 0;
  for (size_t k = 0; k < kinds.size(); k++) {
    size_t i = packing == 1 ? kinds.size() - 1 - k : k;
    const Kind& kd = kKinds[kinds[i]];
    f[i] = {fname(i), off, kd.t, kd.res ? std::optional<float>(res0 * (1 + i)) : std::nullopt};
    off += size_of(kd.t) + (packing == 1 ? 1 + (i & 1) : 0);
  }
  step = off + (packing == 2 ? 3 : 0);
  return f;
}
// deterministic contents: point p, field i
inline void fill_point(Bytes& b, size_t p, const std::vector<PointField>& f, uint32_t step, int style) {
  for (size_t i = 0; i < f.size(); i++) {
    uint64_t h = (p * 0x9E3779B97F4A7C15ull) ^ (i * 0xD1B54A32D192ED03ull);
    h ^= h >> 29;
    h *= 0xBF58476D1CE4E5B9ull;
    h ^= h >> 32;
    size_t off = p * step + f[i].offset;
    if (f[i].type == FT::FLOAT32 || f[i].type == FT::FLOAT64) {
      double v = style == 0 ? double(int64_t(h % 2000001) - 1000000) * 0.0137 : style == 1 ? double(p) * 0.5 + double(i) : (h % 7 == 0 ? NAN : double(h % 100));
      if (f[i].type == FT::FLOAT32) put<float>(b, off, (float)v);
      else put<double>(b, off, v);
    } else {
      uint64_t v = style == 0 ? h : style == 1 ? p * (i + 3) : (h % 5);
      put_raw(b, off, v, size_of(f[i].type));
    }
  }
}
inline Bytes make_cloud(size_t n, const std::vector<PointField>& f, uint32_t step, int style) {
  Bytes b(n * step, 0x77);
  for (size_t p = 0; p < n; p++) fill_point(b, p, f, step, style);
  return b;
}
inline std::string lname(const std::vector<int>& k) {
  std::string s;
  for (int i : k) s += std::string(s.empty() ? "" : "+") + tname(kKinds[i].t) + (kKinds[i].res ? "r" : "");
  return s;
}
}  // namespace cl
