// Helpers around the public API of cloudini plus an independent reference implementation of the wire format.
#pragma once
#include <lz4.h>
#include <zstd.h>

#include <cmath>
#include <cstring>
#include <limits>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "cloudini_lib/cloudini.hpp"
#include "vh.hpp"

namespace cl {
using namespace Cloudini;
using Bytes = std::vector<uint8_t>;
using FT = FieldType;

static const FT kIntTypes[] = {FT::INT8, FT::UINT8, FT::INT16, FT::UINT16, FT::INT32, FT::UINT32, FT::INT64, FT::UINT64};
static const FT kAllTypes[] = {FT::INT8,   FT::UINT8,   FT::INT16,   FT::UINT16, FT::INT32,
                               FT::UINT32, FT::FLOAT32, FT::FLOAT64, FT::INT64,  FT::UINT64};

inline int size_of(FT t) {
  switch (t) {
    case FT::INT8: case FT::UINT8: return 1;
    case FT::INT16: case FT::UINT16: return 2;
    case FT::INT32: case FT::UINT32: case FT::FLOAT32: return 4;
    case FT::FLOAT64: case FT::INT64: case FT::UINT64: return 8;
    default: return 0;
  }
}
inline const char* tname(FT t) {
  switch (t) {
    case FT::INT8: return "i8"; case FT::UINT8: return "u8"; case FT::INT16: return "i16"; case FT::UINT16: return "u16";
    case FT::INT32: return "i32"; case FT::UINT32: return "u32"; case FT::FLOAT32: return "f32"; case FT::FLOAT64: return "f64";
    case FT::INT64: return "i64"; case FT::UINT64: return "u64"; default: return "?";
  }
}
inline const char* oname(EncodingOptions o) {
  return o == EncodingOptions::NONE ? "none" : o == EncodingOptions::LOSSY ? "lossy" : "lossless";
}
inline const char* cname(CompressionOption o) {
  return o == CompressionOption::NONE ? "raw" : o == CompressionOption::LZ4 ? "lz4" : "zstd";
}
inline bool is_int(FT t) { return t != FT::FLOAT32 && t != FT::FLOAT64 && t != FT::UNKNOWN; }

struct Config {
  int version = 5;
  EncodingOptions enc = EncodingOptions::LOSSY;
  CompressionOption comp = CompressionOption::NONE;
  bool threads = false;
  std::string str() const {
    return vh::fmt("v%d/%s/%s%s", version, oname(enc), cname(comp), threads ? "/thr" : "");
  }
};

inline std::vector<Config> all_configs(std::vector<int> versions = {3, 4, 5}, bool with_threads = true) {
  std::vector<Config> r;
  for (int v : versions)
    for (auto e : {EncodingOptions::LOSSY, EncodingOptions::LOSSLESS, EncodingOptions::NONE})
      for (auto c : {CompressionOption::NONE, CompressionOption::LZ4, CompressionOption::ZSTD}) {
        r.push_back({v, e, c, false});
        if (with_threads && c != CompressionOption::NONE) r.push_back({v, e, c, true});
      }
  return r;
}

inline EncodingInfo make_info(const Config& c, std::vector<PointField> fields, uint32_t step, uint32_t width, uint32_t height = 1) {
  EncodingInfo i;
  i.version = c.version;
  i.encoding_opt = c.enc;
  i.compression_opt = c.comp;
  i.use_threads = c.threads;
  i.fields = std::move(fields);
  i.point_step = step;
  i.width = width;
  i.height = height;
  return i;
}

// ---- driving the real implementation -------------------------------------------------------------------------
// Encode with the growing-vector API.
inline Bytes enc_vec(PointcloudEncoder& e, const Bytes& cloud) {
  Bytes out;
  size_t n = e.encode(ConstBufferView(cloud.data(), cloud.size()), out);
  if (n != out.size()) vh::fail("size-return", "encode() returned %zu but the output holds %zu bytes", n, out.size());
  vh::transition();
  return out;
}
inline Bytes enc_fresh(const EncodingInfo& info, const Bytes& cloud) {
  PointcloudEncoder e(info);
  return enc_vec(e, cloud);
}
// Encode into a caller-provided buffer of exactly the advertised worst-case size, followed by guard bytes.
inline Bytes enc_view(PointcloudEncoder& e, const Bytes& cloud, bool header, size_t slack = 0) {
  const auto& info = e.getEncodingInfo();
  size_t pts = cloud.size() / info.point_step;
  size_t cap = MaxCompressedSize(info, pts, header) + slack;
  Bytes buf(cap + 64, 0xA5);
  BufferView v(buf.data(), cap);
  size_t n = e.encode(ConstBufferView(cloud.data(), cloud.size()), v, header);
  if (n > cap) vh::fail("bound", "encode() reports %zu bytes in a buffer of %zu", n, cap);
  for (size_t i = cap; i < buf.size(); i++)
    if (buf[i] != 0xA5) vh::fail("overrun", "byte %zu past the end of the output buffer was overwritten", i - cap);
  buf.resize(n);
  vh::transition();
  return buf;
}

struct Decoded {
  EncodingInfo info;
  Bytes data;
};
// Decode a complete (header + payload) buffer into a buffer pre-filled with `fill`, surrounded by guards.
inline Decoded dec_full(const Bytes& enc, uint8_t fill = 0xCD, PointcloudDecoder* dec = nullptr) {
  ConstBufferView v(enc.data(), enc.size());
  Decoded d;
  d.info = DecodeHeader(v);
  size_t n = size_t(d.info.width) * d.info.height * d.info.point_step;
  Bytes buf(n + 128, 0x5A);
  memset(buf.data() + 64, fill, n);
  std::unique_ptr<PointcloudDecoder> own;
  if (!dec) {
    own = std::make_unique<PointcloudDecoder>();
    dec = own.get();
  }
  dec->decode(d.info, v, BufferView(buf.data() + 64, n));
  for (size_t i = 0; i < 64; i++)
    if (buf[i] != 0x5A || buf[64 + n + i] != 0x5A) vh::fail("dec-overrun", "decoder wrote outside of the output buffer");
  d.data.assign(buf.begin() + 64, buf.begin() + 64 + n);
  vh::transition();
  return d;
}
inline Bytes dec_payload(const EncodingInfo& info, const uint8_t* p, size_t n, uint8_t fill = 0xCD, PointcloudDecoder* dec = nullptr) {
  size_t m = size_t(info.width) * info.height * info.point_step;
  Bytes buf(m + 128, 0x5A);
  memset(buf.data() + 64, fill, m);
  std::unique_ptr<PointcloudDecoder> own;
  if (!dec) {
    own = std::make_unique<PointcloudDecoder>();
    dec = own.get();
  }
  dec->decode(info, ConstBufferView(p, n), BufferView(buf.data() + 64, m));
  for (size_t i = 0; i < 64; i++)
    if (buf[i] != 0x5A || buf[64 + m + i] != 0x5A) vh::fail("dec-overrun", "decoder wrote outside of the output buffer");
  vh::transition();
  return Bytes(buf.begin() + 64, buf.begin() + 64 + m);
}

// ---- what a decoded field must look like -----------------------------------------------------------------------
enum class FieldLaw { Exact, Lossy, LossyVec };
inline FieldLaw law(const Config& c, const PointField& f) {
  if (c.enc == EncodingOptions::LOSSY && f.resolution && (f.type == FT::FLOAT32 || f.type == FT::FLOAT64)) return FieldLaw::Lossy;
  return FieldLaw::Exact;
}
inline bool leading_triple(const EncodingInfo& info) {
  if (info.encoding_opt != EncodingOptions::LOSSY) return false;
  size_t n = 0;
  for (auto& f : info.fields) {
    if (f.type != FT::FLOAT32 || !f.resolution) break;
    n++;
  }
  return n == 3 || n == 4;
}

// A finite value is "in range" if value/resolution is representable in the integer the format quantizes to.
// The format guarantees 31-bit quanta for the leading float group and 63-bit quanta elsewhere.
inline bool lossy_in_range(double v, double res, bool vec) {
  return std::isfinite(v) && std::fabs(v / res) < (vec ? 2147483000.0 : std::ldexp(1.0, 61));
}

// returns empty string if ok
inline std::string check_field(FieldLaw l, const PointField& f, const uint8_t* in, const uint8_t* out) {
  const int n = size_of(f.type);
  if (l == FieldLaw::Exact) {
    if (memcmp(in, out, n) != 0)
      return vh::fmt("field '%s' (%s): expected bytes %s, decoded %s", f.name.c_str(), tname(f.type), vh::hex(in, n).c_str(),
                     vh::hex(out, n).c_str());
    return "";
  }
  double a, b;
  double eps;
  if (f.type == FT::FLOAT32) {
    float x, y;
    memcpy(&x, in, 4);
    memcpy(&y, out, 4);
    a = x, b = y;
    eps = std::ldexp(1.0, -21);
  } else {
    memcpy(&a, in, 8);
    memcpy(&b, out, 8);
    eps = std::ldexp(1.0, -49);
  }
  const double res = *f.resolution;
  if (std::isnan(a)) {
    if (!std::isnan(b)) return vh::fmt("field '%s': NaN decoded as %.17g", f.name.c_str(), b);
    return "";
  }
  if (!lossy_in_range(a, res, l == FieldLaw::LossyVec)) return "";  // only required not to disturb its neighbours
  const double tol = 0.5 * res * (1 + 1e-6) + std::fabs(a) * eps;
  if (!(std::fabs(a - b) <= tol))
    return vh::fmt("field '%s' (%s): value %.9g decoded as %.9g, error %.6g > %.6g (resolution %.6g)", f.name.c_str(), tname(f.type), a, b,
                   std::fabs(a - b), tol, res);
  return "";
}

// Check a whole decoded cloud: every field obeys its law, every byte that belongs to no field still has `fill`.
inline void check_cloud(const Config& c, const EncodingInfo& info, const Bytes& in, const Bytes& out, uint8_t fill, const std::string& what) {
  if (out.size() != in.size()) vh::fail("size", "%s: decoded %zu bytes instead of %zu", what.c_str(), out.size(), in.size());
  const size_t step = info.point_step;
  const size_t n = step ? in.size() / step : 0;
  std::vector<char> used(step, 0);
  for (auto& f : info.fields)
    for (int k = 0; k < size_of(f.type); k++) used[f.offset + k] = 1;
  std::vector<size_t> pad;
  for (size_t k = 0; k < step; k++)
    if (!used[k]) pad.push_back(k);
  struct FI { FieldLaw l; const PointField* f; };
  std::vector<FI> fl;
  const bool triple = leading_triple(info);
  size_t lead = 0;
  if (triple)
    while (lead < info.fields.size() && lead < 4 && info.fields[lead].type == FT::FLOAT32 && info.fields[lead].resolution) lead++;
  for (size_t k = 0; k < info.fields.size(); k++)
    fl.push_back({k < lead ? FieldLaw::LossyVec : law(c, info.fields[k]), &info.fields[k]});
  for (size_t p = 0; p < n; p++) {
    const uint8_t* a = in.data() + p * step;
    const uint8_t* b = out.data() + p * step;
    for (auto& x : fl) {
      if (x.l == FieldLaw::Exact && memcmp(a + x.f->offset, b + x.f->offset, size_of(x.f->type)) == 0) continue;
      std::string e = check_field(x.l, *x.f, a + x.f->offset, b + x.f->offset);
      if (!e.empty()) vh::fail("value", "%s: point %zu of %zu: %s", what.c_str(), p, n, e.c_str());
    }
    for (size_t k : pad)
      if (b[k] != fill) vh::fail("padding", "%s: point %zu: padding byte %zu of the caller's buffer was changed", what.c_str(), p, k);
  }
}

template <class T>
inline void put(Bytes& b, size_t off, T v) {
  memcpy(b.data() + off, &v, sizeof v);
}
inline void put_raw(Bytes& b, size_t off, uint64_t v, int n) { memcpy(b.data() + off, &v, n); }
}  // namespace cl

namespace cl {
// Encoder + decoder for one configuration and layout, driven payload-only with clouds of any size.
struct Driver {
  Config c;
  EncodingInfo info;
  PointcloudEncoder enc;
  PointcloudDecoder dec;
  Driver(const Config& cc, std::vector<PointField> f, uint32_t step) : c(cc), info(make_info(cc, std::move(f), step, 0)), enc(info) {}
  Bytes encode(const Bytes& cloud) { return enc_view(enc, cloud, false); }
  EncodingInfo dinfo(size_t pts) const {
    EncodingInfo i = info;
    i.width = uint32_t(pts);
    i.height = 1;
    return i;
  }
  Bytes decode(const Bytes& payload, size_t pts, uint8_t fill = 0xCD) { return dec_payload(dinfo(pts), payload.data(), payload.size(), fill, &dec); }
  // encode, decode and check every law; returns the payload
  Bytes roundtrip(const Bytes& cloud, const char* what = "") {
    Bytes p = encode(cloud);
    size_t n = cloud.size() / info.point_step;
    Bytes o;
    try {
      o = decode(p, n);
    } catch (const std::exception& e) {
      vh::fail("decode-throws", "%s %s: decoding what encode() produced for %zu point(s) failed: %s; first input bytes %s", c.str().c_str(),
               what, n, e.what(), vh::hex(cloud.data(), cloud.size()).c_str());
    }
    check_cloud(c, info, cloud, o, 0xCD, c.str() + " " + what);
    vh::state_bytes(p.data(), p.size());
    vh::validated();
    return p;
  }
};

// all sequences over an alphabet of `a` symbols of length lo..hi
template <class Fn>
inline void all_sequences(int a, int lo, int hi, Fn&& fn) {
  for (int n = lo; n <= hi; n++) {
    if (n == 0) {
      fn(std::vector<int>{});
      continue;
    }
    vh::odometer(std::vector<int>(n, a), [&](const std::vector<int>& d) { fn(d); });
  }
}
// order-2 de Bruijn-like walk: visits every ordered pair of symbols as neighbours (Eulerian circuit of the complete digraph)
inline std::vector<int> all_pairs_walk(int k) {
  std::vector<int> out, stack{0}, next(k, 0);
  out.reserve(size_t(k) * k + 1);
  while (!stack.empty()) {
    int v = stack.back();
    if (next[v] < k) stack.push_back(next[v]++);
    else {
      out.push_back(v);
      stack.pop_back();
    }
  }
  return {out.rbegin(), out.rend()};
}
}  // namespace cl
