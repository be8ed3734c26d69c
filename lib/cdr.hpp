// Independent reader and writer of serialized (CDR) ROS messages.
#pragma once
#include "cloud.hpp"

namespace cdr {
using cl::Bytes;
struct Err : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct Out {
  Bytes b;
  bool big;
  int max_align;
  explicit Out(bool be, int max_al = 8, uint8_t kind = 0) : big(be), max_align(max_al) { b = {0, uint8_t(kind | (be ? 0 : 1)), 0, 0}; }
  void align(int n) {
    n = std::min(n, max_align);
    while ((b.size() - 4) % n) b.push_back(0);
  }
  void u(uint64_t v, int n) {
    align(n);
    for (int i = 0; i < n; i++) b.push_back(uint8_t(v >> 8 * (big ? n - 1 - i : i)));
  }
  void s(const std::string& x) {
    u(x.size() + 1, 4);
    b.insert(b.end(), x.begin(), x.end());
    b.push_back(0);
  }
  void blob(const Bytes& x) {
    u(x.size(), 4);
    b.insert(b.end(), x.begin(), x.end());
  }
};
struct In {
  const uint8_t* p;
  size_t n, at = 4;
  bool big;
  In(const uint8_t* q, size_t m) : p(q), n(m) {
    if (m < 4 || q[0] || q[1] > 1 || q[2] || q[3]) throw Err("encapsulation");
    big = q[1] == 0;
  }
  uint64_t u(int k) {
    while ((at - 4) % k) {
      if (at >= n || p[at]) throw Err("padding");
      at++;
    }
    if (at + k > n) throw Err("short");
    uint64_t v = 0;
    for (int i = 0; i < k; i++) v |= uint64_t(p[at + i]) << 8 * (big ? k - 1 - i : i);
    at += k;
    return v;
  }
  std::string s() {
    size_t l = u(4);
    if (l == 0 || at + l > n || p[at + l - 1]) throw Err("string");
    std::string r((const char*)p + at, l - 1);
    at += l;
    return r;
  }
  Bytes blob() {
    size_t l = u(4);
    if (at + l > n) throw Err("sequence");
    Bytes r(p + at, p + at + l);
    at += l;
    return r;
  }
};
// sensor_msgs/PointCloud2; point_cloud_interfaces/CompressedPointCloud2 has a format string at the end
struct Msg {
  bool big = false;
  int32_t sec = 0;
  uint32_t nsec = 0;
  std::string frame;
  uint32_t height = 1, width = 0;
  struct F {
    std::string name;
    uint32_t offset;
    uint8_t type;
    uint32_t count = 1;
  };
  std::vector<F> fields;
  bool bigendian = false;
  uint32_t step = 0, row = 0;
  Bytes data;
  uint8_t dense = 1;
  std::optional<std::string> format;
};
inline Bytes write(const Msg& m) {
  Out c(m.big);
  c.u((uint32_t)m.sec, 4);
  c.u(m.nsec, 4);
  c.s(m.frame);
  c.u(m.height, 4);
  c.u(m.width, 4);
  c.u(m.fields.size(), 4);
  for (auto& f : m.fields) {
    c.s(f.name);
    c.u(f.offset, 4);
    c.u(f.type, 1);
    c.u(f.count, 4);
  }
  c.u(m.bigendian, 1);
  c.u(m.step, 4);
  c.u(m.row, 4);
  c.blob(m.data);
  c.u(m.dense, 1);
  if (m.format) c.s(*m.format);
  return c.b;
}
inline Msg read(const Bytes& b, bool compressed) {
  In c(b.data(), b.size());
  Msg m;
  m.big = c.big;
  m.sec = (int32_t)c.u(4);
  m.nsec = (uint32_t)c.u(4);
  m.frame = c.s();
  m.height = (uint32_t)c.u(4);
  m.width = (uint32_t)c.u(4);
  size_t n = c.u(4);
  for (size_t i = 0; i < n; i++) {
    Msg::F f;
    f.name = c.s();
    f.offset = (uint32_t)c.u(4);
    f.type = (uint8_t)c.u(1);
    f.count = (uint32_t)c.u(4);
    m.fields.push_back(f);
  }
  uint64_t be = c.u(1);
  if (be > 1) throw Err("bool");
  m.bigendian = be;
  m.step = (uint32_t)c.u(4);
  m.row = (uint32_t)c.u(4);
  m.data = c.blob();
  m.dense = (uint8_t)c.u(1);
  if (m.dense > 1) throw Err("bool");
  if (compressed) m.format = c.s();
  if (c.at != c.n) throw Err(vh::fmt("%zu bytes after the end of the message", c.n - c.at));
  return m;
}
inline Msg from_layout(bool big, const std::string& frame, uint32_t h, uint32_t w, const std::vector<Cloudini::PointField>& f, uint32_t step, Bytes data) {
  Msg m;
  m.big = big;
  m.frame = frame;
  m.height = h;
  m.width = w;
  for (auto& x : f) m.fields.push_back({x.name, x.offset, uint8_t(x.type), 1});
  m.step = step;
  m.row = step * w;
  m.data = std::move(data);
  return m;
}
}  // namespace cdr
