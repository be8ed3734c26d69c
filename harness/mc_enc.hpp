// Scenarios shared by the interleaving checks (C07, C08, C20)
#pragma once
#include "cloud.hpp"
#include "mcx.hpp"

namespace mce {
using namespace cl;
#ifdef CLOUDINI_VERIFICATION_POINTS_PER_CHUNK
constexpr size_t CH = CLOUDINI_VERIFICATION_POINTS_PER_CHUNK;
#else
constexpr size_t CH = 32 * 1024;
#endif

enum Api { kVector, kHeader, kPayload, kWrongSize, kSmallBuffer };

struct Step {
  size_t pts;
  int api;
  int pattern;
};

struct Layout {
  const char* name;
  std::vector<PointField> f;
  uint32_t step;
};
inline Layout layout(int k) {
  switch (k) {
    case 0: return {"u8", {{"a", 0, FT::UINT8, std::nullopt}}, 1};
    case 1: return {"u16+pad", {{"a", 0, FT::UINT16, std::nullopt}}, 3};
    case 2: return {"xyzi", {{"x", 0, FT::FLOAT32, 0.01f}, {"y", 4, FT::FLOAT32, 0.01f}, {"z", 8, FT::FLOAT32, 0.01f}, {"i", 12, FT::UINT16, std::nullopt}}, 14};
    default: return {"f64+i64", {{"t", 0, FT::FLOAT64, std::nullopt}, {"s", 8, FT::INT64, std::nullopt}}, 16};
  }
}

inline Bytes cloud(size_t pts, int pattern, uint32_t step) {
  Bytes b(pts * step);
  uint64_t s = 88172645463325252ull + pattern;
  for (size_t i = 0; i < b.size(); i++) {
    switch (pattern) {
      case 0: b[i] = uint8_t(i / (CH * step) + 1); break;  // compressible, every chunk different
      case 1: s ^= s << 13, s ^= s >> 7, s ^= s << 17, b[i] = uint8_t(s); break;  // incompressible
      default: b[i] = uint8_t(i * 7 + i / (CH * step) * 31); break;
    }
  }
  return b;
}

struct Prepared {
  Step st;
  Bytes in, expected;
};

// the reference: the same calls without the worker thread
inline std::vector<Prepared> prepare(Config c, const Layout& l, const std::vector<Step>& steps) {
  c.threads = false;
  EncodingInfo seq = make_info(c, l.f, l.step, 7);
  std::vector<Prepared> prep;
  for (auto& s : steps) {
    Prepared p{s, cloud(s.pts, s.pattern, l.step), {}};
    if (s.api <= kPayload) {
      PointcloudEncoder e(seq);
      p.expected = s.api == kVector ? enc_vec(e, p.in) : enc_view(e, p.in, s.api == kHeader);
    }
    prep.push_back(p);
  }
  return prep;
}

// One call; returns true if it succeeded, false if it threw.
inline bool call(PointcloudEncoder& e, const Prepared& p, bool may_throw, Bytes* reuse = nullptr) {
  const Step& s = p.st;
  const uint32_t step = e.getEncodingInfo().point_step;
  if (s.api == kWrongSize || s.api == kSmallBuffer) {
    bool threw = false;
    size_t cap = MaxCompressedSize(e.getEncodingInfo(), s.pts, false);
    Bytes buf(cap);
    BufferView v(buf.data(), s.api == kSmallBuffer ? cap - 1 : cap);
    try {
      e.encode(ConstBufferView(p.in.data(), p.in.size() - (s.api == kWrongSize && step > 1 ? 1 : 0)), v, false);
    } catch (const std::exception&) {
      threw = true;
    }
    mc::write(buf.data(), buf.size());
    if (!threw && (s.api != kWrongSize || step > 1)) vh::fail("no-throw", "encode() accepted a wrong input");
    return true;
  }
  Bytes in = p.in, own;
  Bytes& out = reuse ? *reuse : own;
  bool ok = true;
  if (s.api == kVector) {
    size_t n = 0;
    mc::arm(true);
    try {
      n = e.encode(ConstBufferView(in.data(), in.size()), out);
    } catch (const std::exception& x) {
      ok = false;
      mc::arm(false);
      if (!may_throw) throw;
    }
    mc::arm(false);
    if (ok && n != out.size()) vh::fail("size-return", "encode() returned %zu, output has %zu", n, out.size());
  } else {
    size_t cap = MaxCompressedSize(e.getEncodingInfo(), s.pts, s.api == kHeader);
    out.assign(cap + 32, 0xA5);
    BufferView v(out.data(), cap);
    size_t n = 0;
    mc::arm(true);
    try {
      n = e.encode(ConstBufferView(in.data(), in.size()), v, s.api == kHeader);
    } catch (const std::exception& x) {
      ok = false;
      mc::arm(false);
      if (!may_throw) throw;
    }
    mc::arm(false);
    mc::write(out.data(), out.size());
    if (n > cap) vh::fail("bound", "encode() returned %zu > %zu", n, cap);
    for (int k = 0; k < 32; k++)
      if (out[cap + k] != 0xA5) vh::fail("overrun", "written past the end");
    if (ok) out.resize(n);
  }
  // the caller is free to reuse its memory as soon as encode() has returned or thrown
  mc::write(in.data(), in.size());
  mc::write(out.data(), out.size());
  if (ok && out != p.expected)
    vh::fail("output", "output with the worker thread (%zu bytes) differs from the output without it (%zu bytes)", out.size(), p.expected.size());
  return ok;
}
inline std::string steps_str(const std::vector<Step>& st) {
  std::string s;
  for (auto& x : st) s += vh::fmt("%s%zu%s/p%d", s.empty() ? "" : ",", x.pts, x.api == kVector ? "v" : x.api == kHeader ? "h" : x.api == kPayload ? "p" : x.api == kWrongSize ? "wrong" : "small", x.pattern);
  return s;
}
}  // namespace mce
