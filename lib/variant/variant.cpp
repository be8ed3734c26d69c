#include "variant.h"

#include <cstdio>
#include <cstring>
#include <memory>
#include <vector>

#include "cloudini_lib/cloudini.hpp"
#include "cloudini_lib/ros_msg_utils.hpp"
using namespace Cloudini;
#define EXPORT extern "C" __attribute__((visibility("default")))

template <class Fn>
static int guard(char* err, Fn&& fn) {
  try {
    fn();
    return 0;
  } catch (const std::exception& e) {
    snprintf(err, 200, "%s", e.what());
  }
  return 1;
}
static void give(const std::vector<uint8_t>& v, uint8_t* out, size_t* n) {
  if (v.size() > *n) throw std::runtime_error("variant: capacity");
  if (!v.empty()) memcpy(out, v.data(), v.size());
  *n = v.size();
}
EXPORT int v_encode(const VDesc* d, const uint8_t* cloud, size_t size, uint8_t* out, size_t* n, char* err) {
  return guard(err, [&] {
    EncodingInfo i;
    i.width = d->width;
    i.height = d->height;
    i.point_step = d->point_step;
    i.encoding_opt = EncodingOptions(d->enc);
    i.compression_opt = CompressionOption(d->comp);
    i.version = d->version;
    i.use_threads = d->threads;
    for (size_t k = 0; k < d->nfields; k++) {
      auto& f = d->fields[k];
      PointField p;
      p.name = f.name;
      p.offset = f.offset;
      p.type = FieldType(f.type);
      if (f.resolution > 0) p.resolution = f.resolution;
      i.fields.push_back(p);
    }
    PointcloudEncoder e(i);
    std::vector<uint8_t> o;
    e.encode(ConstBufferView(cloud, size), o);
    give(o, out, n);
  });
}
EXPORT int v_decode(const uint8_t* stream, size_t size, uint8_t fill, uint8_t* out, size_t* n, char* err) {
  return guard(err, [&] {
    ConstBufferView v(stream, size);
    auto i = DecodeHeader(v);
    unsigned __int128 want = (unsigned __int128)i.width * i.height * i.point_step;
    if (want > *n) throw std::runtime_error("variant: capacity");
    std::vector<uint8_t> o((size_t)want, fill);
    PointcloudDecoder d;
    d.decode(i, v, BufferView(o.data(), o.size()));
    give(o, out, n);
  });
}
EXPORT int v_message(const uint8_t* msg, size_t size, int to_plain, float resolution, int viz, uint8_t* out, size_t* n, char* err) {
  return guard(err, [&] {
    auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(msg, size));
    std::vector<uint8_t> o;
    if (to_plain) cloudini_ros::convertCompressedCloudToPointCloud2(pc, o);
    else {
      cloudini_ros::applyResolutionProfile({}, pc.fields, resolution);
      if (viz) cloudini_ros::applyVizLossyPreprocessing(pc);
      auto i = cloudini_ros::toEncodingInfo(pc);
      i.use_threads = false;
      cloudini_ros::convertPointCloud2ToCompressedCloud(pc, i, o);
    }
    give(o, out, n);
  });
}
