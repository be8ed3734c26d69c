// Writes PCD files, independently of PCL.
#pragma once
#include "cloud.hpp"
namespace pcd {
using namespace cl;
inline std::string number(const uint8_t* p, FT t) {
  auto get = [&](auto v) {
    memcpy(&v, p, sizeof(v));
    return v;
  };
  switch (t) {
    case FT::FLOAT32: return std::isnan(get(0.f)) ? "nan" : vh::fmt("%.9g", get(0.f));
    case FT::FLOAT64: return std::isnan(get(0.0)) ? "nan" : vh::fmt("%.17g", get(0.0));
    case FT::INT8: return vh::fmt("%d", get(int8_t(0)));
    case FT::UINT8: return vh::fmt("%d", get(uint8_t(0)));
    case FT::INT16: return vh::fmt("%d", get(int16_t(0)));
    case FT::UINT16: return vh::fmt("%d", get(uint16_t(0)));
    case FT::INT32: return vh::fmt("%d", get(int32_t(0)));
    case FT::UINT32: return vh::fmt("%u", get(uint32_t(0)));
    case FT::INT64: return vh::fmt("%lld", (long long)get(int64_t(0)));
    default: return vh::fmt("%llu", (unsigned long long)get(uint64_t(0)));
  }
}
inline std::string file(const std::vector<PointField>& f, uint32_t step, uint32_t h, uint32_t w, const Bytes& cloud, bool binary) {
  std::string n = "FIELDS", z = "SIZE", t = "TYPE", c = "COUNT";
  for (auto& x : f) {
    n += " " + x.name, z += " " + std::to_string(size_of(x.type)), c += " 1";
    t += x.type == FT::FLOAT32 || x.type == FT::FLOAT64 ? " F" : x.type == FT::INT8 || x.type == FT::INT16 || x.type == FT::INT32 || x.type == FT::INT64 ? " I" : " U";
  }
  std::string s = "# .PCD v0.7\nVERSION 0.7\n" + n + "\n" + z + "\n" + t + "\n" + c + "\nWIDTH " + std::to_string(w) + "\nHEIGHT " + std::to_string(h) + "\nVIEWPOINT 0 0 0 1 0 0 0\nPOINTS " + std::to_string(w * h) + "\nDATA " + (binary ? "binary" : "ascii") + "\n";
  if (binary) return s.append((const char*)cloud.data(), cloud.size());
  for (size_t p = 0; p < size_t(h) * w; p++)
    for (auto& x : f) s += number(&cloud[p * step + x.offset], x.type) + (&x == &f.back() ? "\n" : " ");
  return s;
}
}  // namespace pcd
