// Helpers for the ROS 2 package: messages built from layouts, compared member by member.
#pragma once
#include <pcl/PCLPointCloud2.h>

#include "cdr.hpp"
#include "gen.hpp"
#include "ref.hpp"
#include "ros_msgs.hpp"

namespace rosx {
using namespace cl;
using Raw = sensor_msgs::msg::PointCloud2;
using Packed = point_cloud_interfaces::msg::CompressedPointCloud2;

inline Raw raw_msg(uint32_t h, uint32_t w, const std::vector<PointField>& f, uint32_t step, const Bytes& cloud, int tag = 0) {
  Raw m;
  m.header.stamp.sec = tag % 3 == 2 ? -5 : 1700000000 + tag;
  m.header.stamp.nanosec = 999999999u - tag;
  m.header.frame_id = std::string(tag % 6, 'm') + "ap";
  m.height = h;
  m.width = w;
  for (auto& x : f) {
    sensor_msgs::msg::PointField q;
    q.name = x.name;
    q.offset = x.offset;
    q.datatype = uint8_t(x.type);
    q.count = 1;
    m.fields.push_back(q);
  }
  m.point_step = step;
  m.row_step = h > 1 || tag % 3 ? step * w : tag % 2 ? 0 : step * w + 16;  // not meaningful for a single row
  m.data = cloud;
  m.is_dense = tag % 2;
  return m;
}
inline cdr::Msg to_cdr(const Raw& m, bool big = false) {
  cdr::Msg r;
  r.big = big;
  r.sec = m.header.stamp.sec;
  r.nsec = m.header.stamp.nanosec;
  r.frame = m.header.frame_id;
  r.height = m.height;
  r.width = m.width;
  for (auto& f : m.fields) r.fields.push_back({f.name, f.offset, f.datatype, f.count});
  r.bigendian = m.is_bigendian;
  r.step = m.point_step;
  r.row = m.row_step;
  r.data = m.data;
  r.dense = m.is_dense;
  return r;
}
inline cdr::Msg to_cdr(const Packed& m, bool big = false) {
  Raw x;
  x.header = m.header, x.height = m.height, x.width = m.width, x.fields = m.fields, x.is_bigendian = m.is_bigendian, x.point_step = m.point_step, x.row_step = m.row_step, x.is_dense = m.is_dense, x.data = m.compressed_data;
  auto r = to_cdr(x, big);
  r.format = m.format;
  return r;
}
inline Packed to_packed(const cdr::Msg& r) {
  Packed m;
  m.header.stamp.sec = r.sec, m.header.stamp.nanosec = r.nsec, m.header.frame_id = r.frame;
  m.height = r.height, m.width = r.width;
  for (auto& f : r.fields) {
    sensor_msgs::msg::PointField q;
    q.name = f.name, q.offset = f.offset, q.datatype = f.type, q.count = f.count;
    m.fields.push_back(q);
  }
  m.is_bigendian = r.bigendian, m.point_step = r.step, m.row_step = r.row, m.compressed_data = r.data, m.is_dense = r.dense;
  m.format = r.format.value_or("");
  return m;
}
// everything but the data
inline void same_envelope(const cdr::Msg& a, const cdr::Msg& b, const char* what) {
  if (a.sec != b.sec || a.nsec != b.nsec || a.frame != b.frame) vh::fail("header", "%s: the header of the message changed", what);
  if (a.height != b.height || a.width != b.width) vh::fail("dims", "%s: %ux%u became %ux%u", what, a.width, a.height, b.width, b.height);
  if (a.fields.size() != b.fields.size()) vh::fail("fields", "%s: %zu fields became %zu", what, a.fields.size(), b.fields.size());
  for (size_t i = 0; i < a.fields.size(); i++)
    if (a.fields[i].name != b.fields[i].name || a.fields[i].offset != b.fields[i].offset || a.fields[i].type != b.fields[i].type || a.fields[i].count != b.fields[i].count)
      vh::fail("fields", "%s: field %zu changed", what, i);
  if (a.step != b.step || (b.row != a.row && b.row != b.step * b.width)) vh::fail("steps", "%s: point_step/row_step changed", what);
  if (b.bigendian) vh::fail("flag", "%s: is_bigendian became true", what);
  if (!a.dense != !b.dense) vh::fail("dense", "%s: is_dense changed", what);
}
// the guarantee of a cloud that was encoded with a resolution for its 32-bit floats
inline EncodingInfo guarantee(const Raw& m, float res) {
  EncodingInfo i;
  i.width = m.width, i.height = m.height, i.point_step = m.point_step;
  for (auto& f : m.fields) {
    PointField p{f.name, f.offset, FT(f.datatype), {}};
    if (p.type == FT::FLOAT32 && res > 0) p.resolution = res;
    i.fields.push_back(p);
  }
  return i;
}
// ignores the bytes that belong to no field
inline void same_points(const EncodingInfo& info, const Bytes& in, Bytes out, const char* what) {
  if (out.size() != in.size()) vh::fail("size", "%s: %zu bytes of points instead of %zu", what, out.size(), in.size());
  std::vector<char> used(info.point_step, 0);
  for (auto& f : info.fields)
    for (int k = 0; k < size_of(f.type); k++) used[f.offset + k] = 1;
  for (size_t k = 0; k < out.size(); k++)
    if (!used[k % info.point_step]) out[k] = 0;
  check_cloud({(int)info.version, info.encoding_opt, info.compression_opt, false}, info, in, out, 0, what);
}
inline uint8_t pcl_type(FT t) {
  switch (t) {
    case FT::INT8: return pcl::PCLPointField::INT8;
    case FT::UINT8: return pcl::PCLPointField::UINT8;
    case FT::INT16: return pcl::PCLPointField::INT16;
    case FT::UINT16: return pcl::PCLPointField::UINT16;
    case FT::INT32: return pcl::PCLPointField::INT32;
    case FT::UINT32: return pcl::PCLPointField::UINT32;
    case FT::FLOAT32: return pcl::PCLPointField::FLOAT32;
    case FT::FLOAT64: return pcl::PCLPointField::FLOAT64;
    default: return 0;
  }
}
inline void same_pcl(const Raw& m, float res, const pcl::PCLPointCloud2& o, const char* what) {
  if (o.width != m.width || o.height != m.height || o.point_step != m.point_step || o.row_step != m.width * m.point_step) vh::fail("pcl-dims", "%s: dimensions differ", what);
  if (o.fields.size() != m.fields.size()) vh::fail("pcl-fields", "%s: %zu fields instead of %zu", what, o.fields.size(), m.fields.size());
  for (size_t i = 0; i < o.fields.size(); i++)
    if (o.fields[i].name != m.fields[i].name || o.fields[i].offset != m.fields[i].offset || o.fields[i].datatype != pcl_type(FT(m.fields[i].datatype)) || o.fields[i].count != 1)
      vh::fail("pcl-fields", "%s: field %zu differs", what, i);
  same_points(guarantee(m, res), m.data, Bytes(o.data.begin(), o.data.end()), what);
}
}  // namespace rosx
