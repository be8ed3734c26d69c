// Independent reference implementation of the Cloudini wire format (versions 2..5), written from the documentation
// (CLOUDINI_ALGORITHM_ANALYSIS.md, header comments) and deliberately naive.  It shares no code with the library;
// only the plain-data struct EncodingInfo is reused to describe a cloud.
#pragma once
#include "cloud.hpp"

namespace ref {
using namespace cl;

#ifdef CLOUDINI_VERIFICATION_POINTS_PER_CHUNK
constexpr size_t kChunk = CLOUDINI_VERIFICATION_POINTS_PER_CHUNK;
#else
constexpr size_t kChunk = 32768;
#endif

struct Err : std::runtime_error {
  using std::runtime_error::runtime_error;
};

// --------------------------------------------------------------------------------------------------- primitives
inline void put_u(Bytes& o, uint64_t v, int n) {
  for (int i = 0; i < n; i++) o.push_back(uint8_t(v >> (8 * i)));
}
inline void put_uvar(Bytes& o, uint64_t v) {
  do {
    uint8_t b = v & 0x7f;
    v >>= 7;
    o.push_back(b | (v ? 0x80 : 0));
  } while (v);
}
inline void put_svar(Bytes& o, int64_t v) {  // zigzag + 1 (0 is the NaN marker)
  uint64_t z = (uint64_t(v) << 1) ^ uint64_t(v >> 63);
  put_uvar(o, z + 1);  // INT64_MIN wraps to the single byte 0
}
struct In {
  const uint8_t* p;
  const uint8_t* e;
  uint8_t u8() {
    if (p >= e) throw Err("truncated");
    return *p++;
  }
  uint64_t u(int n) {
    uint64_t v = 0;
    for (int i = 0; i < n; i++) v |= uint64_t(u8()) << (8 * i);
    return v;
  }
  uint64_t uvar() {
    uint64_t v = 0;
    for (int s = 0;; s += 7) {
      if (s > 63) throw Err("varint");
      uint8_t b = u8();
      v |= uint64_t(b & 0x7f) << s;
      if (!(b & 0x80)) return v;
    }
  }
  // returns false for the NaN marker
  bool svar(int64_t& out) {
    uint64_t v = uvar();
    if (v == 0) return false;
    v--;
    out = int64_t((v >> 1) ^ (~(v & 1) + 1));
    return true;
  }
};

inline int64_t get_int(const uint8_t* p, FT t) {
  switch (t) {
    case FT::INT8: { int8_t v; memcpy(&v, p, 1); return v; }
    case FT::UINT8: return *p;
    case FT::INT16: { int16_t v; memcpy(&v, p, 2); return v; }
    case FT::UINT16: { uint16_t v; memcpy(&v, p, 2); return v; }
    case FT::INT32: { int32_t v; memcpy(&v, p, 4); return v; }
    case FT::UINT32: { uint32_t v; memcpy(&v, p, 4); return v; }
    default: { int64_t v; memcpy(&v, p, 8); return v; }
  }
}

enum class Kind { Copy, Int, LossyF, LossyD, LossyVec, XorF, XorD, GorillaD, Adaptive };
struct Col {
  Kind kind;
  PointField f;
};

inline bool adaptive_type(FT t) { return is_int(t) && size_of(t) > 1; }
inline size_t lead(const EncodingInfo& i) {
  if (i.encoding_opt != EncodingOptions::LOSSY) return 0;
  size_t n = 0;
  for (auto& f : i.fields) {
    if (f.type != FT::FLOAT32 || !f.resolution) break;
    n++;
  }
  return (n == 3 || n == 4) ? n : 0;
}
inline bool v5(const EncodingInfo& i) {
  if (i.version < 5 || i.encoding_opt != EncodingOptions::LOSSY) return false;
  for (size_t k = lead(i); k < i.fields.size(); k++)
    if (adaptive_type(i.fields[k].type)) return true;
  return false;
}
// Columns in wire order; LossyVec columns come as the 3/4 first ones (they are interleaved per point like the others).
inline std::vector<Col> columns(const EncodingInfo& i) {
  std::vector<Col> c;
  size_t l = lead(i);
  bool five = v5(i);
  for (size_t k = 0; k < i.fields.size(); k++) {
    auto& f = i.fields[k];
    Kind kd;
    if (i.encoding_opt == EncodingOptions::NONE) kd = Kind::Copy;
    else if (k < l) kd = Kind::LossyVec;
    else if (adaptive_type(f.type)) kd = five ? Kind::Adaptive : Kind::Int;
    else if (f.type == FT::FLOAT32)
      kd = (i.encoding_opt == EncodingOptions::LOSSLESS) ? Kind::XorF : f.resolution ? Kind::LossyF : Kind::Copy;
    else if (f.type == FT::FLOAT64)
      kd = (i.encoding_opt == EncodingOptions::LOSSY && f.resolution) ? Kind::LossyD
           : (!f.resolution && i.version >= 4) ? Kind::GorillaD : Kind::XorD;
    else kd = Kind::Copy;
    c.push_back({kd, f});
  }
  return c;
}

// ------------------------------------------------------------------------------------------------- Gorilla (f64)
struct BitOut {
  std::vector<bool> b;
  void put(uint64_t v, int n) {
    for (int i = 0; i < n; i++) b.push_back((v >> i) & 1);
  }
  void flush(Bytes& o) {
    while (b.size() % 8) b.push_back(false);
    for (size_t i = 0; i < b.size(); i += 8) {
      uint8_t x = 0;
      for (int k = 0; k < 8; k++) x |= uint8_t(b[i + k]) << k;
      o.push_back(x);
    }
    b.clear();
  }
};
struct BitIn {
  In& in;
  uint8_t cur = 0;
  int left = 0;
  uint64_t get(int n) {
    uint64_t v = 0;
    for (int i = 0; i < n; i++) {
      if (!left) cur = in.u8(), left = 8;
      v |= uint64_t(cur & 1) << i;
      cur >>= 1;
      left--;
    }
    return v;
  }
};
struct Gor {
  bool first = true;
  uint64_t prev = 0;
  int pl = -1, pt = 0;
  // policy: 0 = reuse the window whenever allowed, 1 = never reuse it (both are legal streams)
  void enc(uint64_t v, Bytes& o, int policy) {
    BitOut b;
    if (first) {
      b.put(v, 64);
      first = false;
    } else {
      uint64_t x = v ^ prev;
      if (!x) b.put(0, 1);
      else {
        b.put(1, 1);
        int l = std::min(31, __builtin_clzll(x)), t = __builtin_ctzll(x);
        if (policy == 0 && pl >= 0 && __builtin_clzll(x) >= pl && t >= pt) {
          b.put(0, 1);
          b.put(x >> pt, 64 - pl - pt);
        } else {
          b.put(1, 1);
          b.put(l, 5);
          int m = 64 - l - t;
          b.put(m - 1, 6);
          b.put(x >> t, m);
          pl = l, pt = t;
        }
      }
    }
    prev = v;
    b.flush(o);
  }
  uint64_t dec(In& in) {
    BitIn b{in};
    if (first) {
      first = false;
      return prev = b.get(64);
    }
    if (b.get(1) == 0) return prev;
    if (b.get(1) == 0) {
      if (pl < 0) throw Err("gorilla window");
      return prev ^= b.get(64 - pl - pt) << pt;
    }
    int l = b.get(5), m = b.get(6) + 1;
    int t = 64 - l - m;
    if (t < 0) throw Err("gorilla window");
    pl = l, pt = t;
    return prev ^= b.get(m) << t;
  }
};

// ------------------------------------------------------------------------------------------------ adaptive columns
inline int palette_bits(size_t n) {
  int b = 0;
  for (size_t m = n > 0 ? n - 1 : 0; m; m >>= 1) b++;
  return b;
}
// split: cut RLE runs to at most `split` elements (0 = maximal runs): every such stream is legal.
inline bool enc_adaptive(const std::vector<uint64_t>& raw, const std::vector<int64_t>& val, int bytes, int mode, size_t split, Bytes& o) {
  o.push_back(uint8_t(mode));
  if (mode == 0) {
    int64_t prev = 0;
    for (int64_t v : val) {
      put_svar(o, int64_t(uint64_t(v) - uint64_t(prev)));
      prev = v;
    }
  } else if (mode == 1) {
    std::vector<uint64_t> pal;
    std::map<uint64_t, uint32_t> idx;
    for (uint64_t r : raw)
      if (idx.emplace(r, (uint32_t)pal.size()).second) pal.push_back(r);
    if (pal.size() > 65535) return false;
    put_u(o, pal.size(), 2);
    for (uint64_t r : pal) put_u(o, r, bytes);
    BitOut b;
    int bits = palette_bits(pal.size());
    for (uint64_t r : raw) b.put(idx[r], bits);
    b.flush(o);
  } else {
    size_t at = o.size();
    put_u(o, 0, 4);
    uint32_t runs = 0;
    uint64_t prev = 0;
    for (size_t i = 0; i < raw.size();) {
      size_t j = i + 1;
      if (mode == 2) {
        while (j < raw.size() && raw[j] == raw[i] && (!split || j - i < split)) j++;
        put_u(o, raw[i], bytes);
      } else {
        uint64_t d = uint64_t(val[i]) - prev;
        while (j < raw.size() && uint64_t(val[j]) - uint64_t(val[j - 1]) == d && (!split || j - i < split)) j++;
        prev = val[j - 1];
        put_svar(o, int64_t(d));
      }
      put_uvar(o, j - i);
      runs++;
      i = j;
    }
    for (int k = 0; k < 4; k++) o[at + k] = uint8_t(runs >> (8 * k));
  }
  return true;
}
inline std::vector<uint64_t> dec_adaptive(In& in, int bytes, size_t n) {
  std::vector<uint64_t> r;
  int mode = in.u8();
  if (mode == 0) {
    uint64_t prev = 0;
    for (size_t i = 0; i < n; i++) {
      int64_t d;
      if (!in.svar(d)) {
        if (bytes != 8) throw Err("marker in integer column");
        d = INT64_MIN;
      }
      prev += uint64_t(d);
      r.push_back(prev);
    }
  } else if (mode == 1) {
    size_t k = in.u(2);
    if (!k) throw Err("empty palette");
    std::vector<uint64_t> pal;
    for (size_t i = 0; i < k; i++) pal.push_back(in.u(bytes));
    BitIn b{in};
    int bits = palette_bits(k);
    for (size_t i = 0; i < n; i++) {
      size_t x = b.get(bits);
      if (x >= k) throw Err("palette index");
      r.push_back(pal[x]);
    }
  } else if (mode == 2 || mode == 3) {
    uint32_t runs = in.u(4);
    uint64_t prev = 0;
    for (uint32_t k = 0; k < runs; k++) {
      uint64_t v = 0;
      if (mode == 2) v = in.u(bytes);
      else {
        int64_t d;
        if (!in.svar(d)) {
          if (bytes != 8) throw Err("marker in integer column");
          d = INT64_MIN;
        }
        v = uint64_t(d);
      }
      uint64_t len = in.uvar();
      if (len > n - r.size()) throw Err("run too long");
      while (len--) {
        if (mode == 2) r.push_back(v);
        else r.push_back(prev += v);
      }
    }
    if (r.size() != n) throw Err("runs do not fill the chunk");
  } else
    throw Err("mode");
  return r;
}

// ------------------------------------------------------------------------------------------------------- stage 1
struct EncChoice {
  std::function<int(size_t field, size_t chunk)> mode = [](size_t, size_t) { return 0; };
  size_t split = 0;
  int gorilla = 0;
  size_t chunk_points = kChunk;
};

inline Bytes stage1(const EncodingInfo& info, const uint8_t* pts, size_t n, const EncChoice& ch, size_t chunk_idx) {
  auto cols = columns(info);
  std::vector<Gor> gor(cols.size());
  std::vector<int64_t> prev(cols.size(), 0);
  std::vector<uint64_t> px(cols.size(), 0);
  Bytes o;
  for (size_t p = 0; p < n; p++) {
    const uint8_t* b = pts + p * info.point_step;
    for (size_t k = 0; k < cols.size(); k++) {
      const auto& f = cols[k].f;
      const uint8_t* q = b + f.offset;
      switch (cols[k].kind) {
        case Kind::Copy: o.insert(o.end(), q, q + size_of(f.type)); break;
        case Kind::Int: {
          int64_t v = get_int(q, f.type);
          put_svar(o, int64_t(uint64_t(v) - uint64_t(prev[k])));
          prev[k] = v;
        } break;
        case Kind::LossyVec:
        case Kind::LossyF: {
          float x;
          memcpy(&x, q, 4);
          if (std::isnan(x)) {
            o.push_back(0);
            prev[k] = 0;
            break;
          }
          int64_t v = std::llrint(double(x) / double(*f.resolution));
          put_svar(o, v - prev[k]);
          prev[k] = v;
        } break;
        case Kind::LossyD: {
          double x;
          memcpy(&x, q, 8);
          if (std::isnan(x)) {
            o.push_back(0);
            prev[k] = 0;
            break;
          }
          int64_t v = std::llrint(x / double(*f.resolution));
          put_svar(o, v - prev[k]);
          prev[k] = v;
        } break;
        case Kind::XorF: { uint32_t v; memcpy(&v, q, 4); put_u(o, v ^ px[k], 4); px[k] = v; } break;
        case Kind::XorD: { uint64_t v; memcpy(&v, q, 8); put_u(o, v ^ px[k], 8); px[k] = v; } break;
        case Kind::GorillaD: { uint64_t v; memcpy(&v, q, 8); gor[k].enc(v, o, ch.gorilla); } break;
        case Kind::Adaptive: break;
      }
    }
  }
  for (size_t k = 0; k < cols.size(); k++) {
    if (cols[k].kind != Kind::Adaptive) continue;
    const auto& f = cols[k].f;
    std::vector<uint64_t> raw;
    std::vector<int64_t> val;
    for (size_t p = 0; p < n; p++) {
      uint64_t r = 0;
      memcpy(&r, pts + p * info.point_step + f.offset, size_of(f.type));
      raw.push_back(r);
      val.push_back(get_int(pts + p * info.point_step + f.offset, f.type));
    }
    enc_adaptive(raw, val, size_of(f.type), ch.mode(k, chunk_idx), ch.split, o);
  }
  return o;
}

inline Bytes compress(CompressionOption c, const Bytes& in) {
  if (c == CompressionOption::NONE) return in;
  Bytes o;
  if (c == CompressionOption::LZ4) {
    o.resize(LZ4_compressBound((int)in.size()));
    o.resize(LZ4_compress_default((const char*)in.data(), (char*)o.data(), (int)in.size(), (int)o.size()));
  } else {
    o.resize(ZSTD_compressBound(in.size()));
    static ZSTD_CCtx* cc = ZSTD_createCCtx();
    o.resize(ZSTD_compressCCtx(cc, o.data(), o.size(), in.data(), in.size(), 3));
  }
  return o;
}
inline Bytes decompress(CompressionOption c, const uint8_t* p, size_t n, size_t maxn) {
  if (c == CompressionOption::NONE) return Bytes(p, p + n);
  Bytes o(maxn);
  if (c == CompressionOption::LZ4) {
    int r = LZ4_decompress_safe((const char*)p, (char*)o.data(), (int)n, (int)maxn);
    if (r < 0) throw Err("lz4");
    o.resize(r);
  } else {
    static ZSTD_DCtx* dc = ZSTD_createDCtx();
    size_t r = ZSTD_decompressDCtx(dc, o.data(), maxn, p, n);
    if (ZSTD_isError(r)) throw Err("zstd");
    o.resize(r);
  }
  return o;
}

// Payload without header.
inline Bytes encode_payload(const EncodingInfo& info, const Bytes& cloud, const EncChoice& ch = {}) {
  Bytes o;
  size_t n = cloud.size() / info.point_step;
  if (info.version < 3) {
    Bytes s = stage1(info, cloud.data(), n, ch, 0);
    return compress(info.compression_opt, s);
  }
  for (size_t p = 0, c = 0; p < n; p += kChunk, c++) {
    size_t m = std::min(kChunk, n - p);
    Bytes s = compress(info.compression_opt, stage1(info, cloud.data() + p * info.point_step, m, ch, c));
    put_u(o, s.size(), 4);
    o.insert(o.end(), s.begin(), s.end());
  }
  return o;
}

// ---- header (both documented forms) ----
inline Bytes header_yaml(const EncodingInfo& i) {
  std::string s = vh::fmt("CLOUDINI_V%02d\n", i.version);
  s += vh::fmt("version: %d\nwidth: %u\nheight: %u\npoint_step: %u\nencoding_opt: %s\ncompression_opt: %s\n", i.version, i.width, i.height,
               i.point_step, i.encoding_opt == EncodingOptions::NONE ? "NONE" : i.encoding_opt == EncodingOptions::LOSSY ? "LOSSY" : "LOSSLESS",
               i.compression_opt == CompressionOption::NONE ? "NONE" : i.compression_opt == CompressionOption::LZ4 ? "LZ4" : "ZSTD");
  if (!i.encoding_config.empty()) s += "encoding_config: " + i.encoding_config + "\n";
  s += "fields:\n";
  static const char* T[] = {"UNKNOWN", "INT8", "UINT8", "INT16", "UINT16", "INT32", "UINT32", "FLOAT32", "FLOAT64", "INT64", "UINT64"};
  for (auto& f : i.fields) {
    s += "  - name: " + f.name + "\n";
    s += vh::fmt("    offset: %u\n    type: %s\n", f.offset, T[(int)f.type]);
    if (f.resolution) s += vh::fmt("    resolution: %.9g\n", *f.resolution);
    else s += "    resolution: null\n";
  }
  Bytes b(s.begin(), s.end());
  b.push_back(0);
  return b;
}
inline Bytes header_binary(const EncodingInfo& i) {
  std::string m = vh::fmt("CLOUDINI_V%02d", i.version);
  Bytes b(m.begin(), m.end());
  put_u(b, i.width, 4);
  put_u(b, i.height, 4);
  put_u(b, i.point_step, 4);
  put_u(b, (int)i.encoding_opt, 1);
  put_u(b, (int)i.compression_opt, 1);
  put_u(b, i.fields.size(), 2);
  for (auto& f : i.fields) {
    put_u(b, f.name.size(), 2);
    b.insert(b.end(), f.name.begin(), f.name.end());
    put_u(b, f.offset, 4);
    put_u(b, (int)f.type, 1);
    float r = f.resolution ? *f.resolution : -1.0f;
    uint32_t u;
    memcpy(&u, &r, 4);
    put_u(b, u, 4);
  }
  return b;
}

// ---- decoding ----
inline void decode_stage1(const EncodingInfo& info, const Bytes& s, uint8_t* out, size_t n, size_t* modes = nullptr) {
  auto cols = columns(info);
  std::vector<Gor> gor(cols.size());
  std::vector<int64_t> prev(cols.size(), 0);
  std::vector<uint64_t> px(cols.size(), 0);
  In in{s.data(), s.data() + s.size()};
  for (size_t p = 0; p < n; p++) {
    uint8_t* b = out + p * info.point_step;
    for (size_t k = 0; k < cols.size(); k++) {
      const auto& f = cols[k].f;
      uint8_t* q = b + f.offset;
      switch (cols[k].kind) {
        case Kind::Copy:
          for (int j = 0; j < size_of(f.type); j++) q[j] = in.u8();
          break;
        case Kind::Int: {
          int64_t d;
          if (!in.svar(d)) {
            if (size_of(f.type) != 8) throw Err("marker in integer column");
            d = INT64_MIN;
          }
          prev[k] = int64_t(uint64_t(prev[k]) + uint64_t(d));
          memcpy(q, &prev[k], size_of(f.type));
        } break;
        case Kind::LossyVec:
        case Kind::LossyF:
        case Kind::LossyD: {
          int64_t d;
          double v;
          if (!in.svar(d)) {
            prev[k] = 0;
            v = std::numeric_limits<double>::quiet_NaN();
          } else {
            prev[k] = int64_t(uint64_t(prev[k]) + uint64_t(d));
            if (cols[k].kind == Kind::LossyVec) prev[k] = int32_t(prev[k]);
            v = double(prev[k]) * double(*f.resolution);
          }
          if (f.type == FT::FLOAT32) {
            float w = float(v);
            memcpy(q, &w, 4);
          } else
            memcpy(q, &v, 8);
        } break;
        case Kind::XorF: { uint32_t v = uint32_t(in.u(4) ^ px[k]); px[k] = v; memcpy(q, &v, 4); } break;
        case Kind::XorD: { uint64_t v = in.u(8) ^ px[k]; px[k] = v; memcpy(q, &v, 8); } break;
        case Kind::GorillaD: { uint64_t v = gor[k].dec(in); memcpy(q, &v, 8); } break;
        case Kind::Adaptive: break;
      }
    }
  }
  for (size_t k = 0; k < cols.size(); k++) {
    if (cols[k].kind != Kind::Adaptive) continue;
    const auto& f = cols[k].f;
    if (modes && in.p < in.e && *in.p < 4) modes[*in.p]++;
    auto v = dec_adaptive(in, size_of(f.type), n);
    for (size_t p = 0; p < n; p++) memcpy(out + p * info.point_step + f.offset, &v[p], size_of(f.type));
  }
  if (in.p != in.e) throw Err("trailing bytes in chunk");
}

inline size_t stage1_cap(const EncodingInfo& info, size_t n) { return n * (info.fields.size() * 12 + 16) + info.fields.size() * 64 + 4096; }

inline Bytes decode_payload(const EncodingInfo& info, const uint8_t* p, size_t n, uint8_t fill = 0xCD, size_t* modes = nullptr) {
  size_t pts = size_t(info.width) * info.height;
  Bytes out(pts * info.point_step, fill);
  if (info.version < 3) {
    Bytes s = decompress(info.compression_opt, p, n, stage1_cap(info, pts));
    decode_stage1(info, s, out.data(), pts, modes);
    return out;
  }
  In in{p, p + n};
  for (size_t d = 0; d < pts; d += kChunk) {
    size_t m = std::min(kChunk, pts - d);
    size_t sz = in.u(4);
    if (sz > size_t(in.e - in.p)) throw Err("chunk size");
    Bytes s = decompress(info.compression_opt, in.p, sz, stage1_cap(info, m));
    in.p += sz;
    decode_stage1(info, s, out.data() + d * info.point_step, m, modes);
  }
  if (in.p != in.e) throw Err("trailing chunk");
  return out;
}
// The chunks of a payload of version >= 3 (compressed bytes of each).
inline std::vector<Bytes> split_chunks(const Bytes& payload) {
  std::vector<Bytes> r;
  In in{payload.data(), payload.data() + payload.size()};
  while (in.p < in.e) {
    size_t sz = in.u(4);
    if (sz > size_t(in.e - in.p)) throw Err("chunk size");
    r.emplace_back(in.p, in.p + sz);
    in.p += sz;
  }
  return r;
}
inline Bytes join_chunks(const std::vector<Bytes>& c) {
  Bytes o;
  for (auto& x : c) {
    put_u(o, x.size(), 4);
    o.insert(o.end(), x.begin(), x.end());
  }
  return o;
}
}  // namespace ref
