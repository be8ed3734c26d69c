// C16: lossy preprocessing for visualization, against a reference model of voxel occupancy.
#include <array>

#include "cloudini_lib/ros_msg_utils.hpp"
#include "gen.hpp"
using namespace cl;
using cloudini_ros::RosPointCloud2;
using P3 = std::array<float, 3>;

// One coordinate on the grid.  Where rounding of the division in single precision could matter the model accepts both outcomes.
struct Q {
  float v;
  double q, r, err;
  bool clear;
  Q(float x, float res) : v(x), q(double(x) / res), r(std::round(q)), err(std::fabs(q) * std::ldexp(1.0, -22) + 1e-9) { clear = 0.5 - std::fabs(q - r) > err; }
};
static bool same_voxel(const Q& a, const Q& b) { return a.v == b.v || (a.clear && b.clear && a.r == b.r); }
static bool other_voxel(const Q& a, const Q& b) { return (a.clear && b.clear && a.r != b.r) || std::fabs(a.q - b.q) > 1 + a.err + b.err; }

struct Lay {
  uint32_t base, step;
  int extra;  // 0: id only; 1: + f64 without resolution; 2: + f64 with resolution, f32 intensity first
};
static const Lay kLays[] = {{0, 16, 0}, {4, 32, 1}, {1, 34, 2}, {8, 40, 1}};
static std::vector<PointField> fields(const Lay& l, float res) {
  std::vector<PointField> f{{"u", l.base, FT::FLOAT32, res}, {"v", l.base + 4, FT::FLOAT32, res}, {"w", l.base + 8, FT::FLOAT32, res}};
  const uint32_t id = l.base >= 4 ? 0 : l.base + 12;
  if (l.extra == 2) f.push_back({"i", l.base + 16, FT::FLOAT32, res});
  f.push_back({"id", id, FT::UINT32, {}});
  if (l.extra == 1) f.push_back({"t", l.base + 12, FT::FLOAT64, {}});
  if (l.extra == 2) {
    f.push_back({"t", l.base + 20, FT::FLOAT64, 0.5f});
    f.push_back({"t2", l.base + 25, FT::FLOAT64, {}});
    f.push_back({"t3", l.base + 25, FT::FLOAT64, 1e-9f});
    f.push_back({"t4", l.base + 25, FT::FLOAT64, 0.f});
  }
  // 100 and more: that many other fields
  if (l.extra >= 100)
    for (int i = 0; i < l.extra - 100; i++) {
      const FT t = kAllTypes[(i * 7 + l.extra) % std::size(kAllTypes)];
      f.push_back({vh::fmt("f%d", i), uint32_t(l.base + 16 + i % 5), i % 3 ? t : FT::FLOAT64, i % 4 == 3 ? std::optional<float>(0.5f) : std::nullopt});
    }
  return f;
}
static uint32_t id_off(const Lay& l) { return l.base >= 4 ? 0 : l.base + 12; }
static Bytes cloud(const std::vector<P3>& pts, const Lay& l) {
  Bytes b(pts.size() * l.step);
  for (size_t i = 0; i < b.size(); i++) b[i] = uint8_t(i * 37 + 11);
  for (size_t p = 0; p < pts.size(); p++) {
    for (int k = 0; k < 3; k++) put<float>(b, p * l.step + l.base + 4 * k, pts[p][k]);
    put<uint32_t>(b, p * l.step + id_off(l), uint32_t(p));
  }
  return b;
}
static RosPointCloud2 make(const Bytes& data, const Lay& l, float res, uint32_t w, uint32_t h) {
  RosPointCloud2 pc;
  pc.width = w;
  pc.height = h;
  pc.fields = fields(l, res);
  pc.point_step = l.step;
  pc.row_step = l.step * w;
  pc.ros_header.frame_id = "frame";
  pc.ros_header.stamp_sec = -7;
  pc.ros_header.stamp_nsec = 9;
  pc.data = ConstBufferView(data.data(), data.size());
  return pc;
}
static std::string show(const std::vector<P3>& pts) {
  std::string s;
  for (size_t i = 0; i < pts.size() && i < 8; i++) s += vh::fmt("(%.9g %.9g %.9g)", pts[i][0], pts[i][1], pts[i][2]);
  return s;
}
static void check_common(const RosPointCloud2& pc, const Lay& l, float res, size_t kept) {
  if (pc.width != kept || pc.height != 1 || pc.row_step != kept * l.step) vh::fail("dims", "%zu points left but the message says %ux%u, row_step %u", kept, pc.width, pc.height, pc.row_step);
  if (pc.point_step != l.step || pc.ros_header.frame_id != "frame" || pc.ros_header.stamp_sec != -7 || pc.ros_header.stamp_nsec != 9) vh::fail("meta", "another member of the message changed");
  auto f = fields(l, res);
  if (pc.fields.size() != f.size()) vh::fail("fields", "number of fields changed");
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i].type == FT::FLOAT64 && !f[i].resolution) f[i].resolution = 1e-6f;
    if (!(pc.fields[i] == f[i])) vh::fail("fields", "field %zu ('%s') is not as documented", i, f[i].name.c_str());
  }
}
static void run(const std::vector<P3>& pts, const Lay& l, float res, uint32_t w = 0, uint32_t h = 1) {
  if (!w) w = uint32_t(pts.size());
  const Bytes in = cloud(pts, l);
  RosPointCloud2 pc = make(in, l, res, w, h);
  cloudini_ros::applyVizLossyPreprocessing(pc);
  vh::transition();
  if (pts.empty()) {
    if (pc.width != w || pc.height != h || pc.data.size()) vh::fail("empty", "an empty cloud changed");
    return;
  }
  if (pc.data.size() % l.step) vh::fail("size", "the data is no multiple of the point size");
  const size_t kept = pc.data.size() / l.step;
  check_common(pc, l, res, kept);
  // the survivors: unchanged, in order
  std::vector<char> keep(pts.size(), 0);
  long last = -1;
  for (size_t i = 0; i < kept; i++) {
    uint32_t id;
    memcpy(&id, pc.data.data() + i * l.step + id_off(l), 4);
    if (long(id) <= last || id >= pts.size()) vh::fail("order", "survivor %zu is point %u: not in the original order; %s", i, id, show(pts).c_str());
    if (memcmp(pc.data.data() + i * l.step, in.data() + size_t(id) * l.step, l.step)) vh::fail("changed", "point %u was changed; %s", id, show(pts).c_str());
    keep[id] = 1;
    last = id;
  }
  std::vector<std::array<Q, 3>> held;
  for (size_t i = 0; i < pts.size(); i++) {
    auto& p = pts[i];
    if (!std::isfinite(p[0]) || !std::isfinite(p[1]) || !std::isfinite(p[2])) {
      if (keep[i]) vh::fail("nonfinite", "point %zu has a non-finite coordinate but was kept; res %g %s", i, res, show(pts).c_str());
      continue;
    }
    std::array<Q, 3> q{Q(p[0], res), Q(p[1], res), Q(p[2], res)};
    bool maybe = false, same = false;
    for (auto& o : held) {
      bool d = false, s = true;
      for (int k = 0; k < 3; k++) {
        d |= other_voxel(q[k], o[k]);
        s &= same_voxel(q[k], o[k]);
      }
      same |= s;
      maybe |= !d;
    }
    if (same && keep[i]) vh::fail("duplicate", "point %zu lies in an occupied voxel but was kept; res %g %s", i, res, show(pts).c_str());
    if (!maybe && !keep[i]) vh::fail("lost", "point %zu (%.9g %.9g %.9g) is the first one of its voxel but was dropped; res %g %s", i, p[0], p[1], p[2], res, show(pts).c_str());
    if (keep[i]) held.push_back(q);
  }
  vh::validated();
  vh::state_bytes(pc.data.data(), pc.data.size());
  // applied once more: nothing changes
  Bytes once(pc.data.data(), pc.data.data() + pc.data.size());
  cloudini_ros::applyVizLossyPreprocessing(pc);
  if (pc.data.size() != once.size() || (once.size() && memcmp(pc.data.data(), once.data(), once.size()))) vh::fail("idempotent", "the second application changes the cloud; res %g %s", res, show(pts).c_str());
  if (kept) check_common(pc, l, res, kept);
}
// large clouds whose coordinates are all clear: exact expectation
static void run_big(const std::vector<P3>& pts, const Lay& l, float res, uint32_t w, uint32_t h) {
  const Bytes in = cloud(pts, l);
  RosPointCloud2 pc = make(in, l, res, w, h);
  cloudini_ros::applyVizLossyPreprocessing(pc);
  vh::transition();
  Bytes want;
  std::set<std::array<double, 3>> seen;
  for (size_t i = 0; i < pts.size(); i++) {
    auto& p = pts[i];
    if (!std::isfinite(p[0]) || !std::isfinite(p[1]) || !std::isfinite(p[2])) continue;
    std::array<double, 3> k;
    for (int a = 0; a < 3; a++) {
      Q q(p[a], res);
      int e;  // with a power of two every computation is exact
      if (!(std::frexp(res, &e) == 0.5 ? std::fabs(q.q - q.r) < 0.5 : q.clear)) throw std::runtime_error("harness: ambiguous coordinate");
      k[a] = q.r + 0.0;
    }
    if (!seen.insert(k).second) continue;
    want.insert(want.end(), in.begin() + i * l.step, in.begin() + (i + 1) * l.step);
  }
  if (pc.data.size() != want.size() || memcmp(pc.data.data(), want.data(), want.size()))
    vh::fail("big", "%zu points: %zu survivors instead of %zu (or in another order), res %g", pts.size(), pc.data.size() / l.step, want.size() / l.step, res);
  check_common(pc, l, res, want.size() / l.step);
  vh::validated();
  vh::state_bytes(pc.data.data(), pc.data.size());
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  const bool T = vh::thorough();
  const float inf = INFINITY, nan = NAN, big = 3.4e38f;
  static const float kRes[] = {0.001f, 0.25f, 0.1f, 1.0f, 37.5f, 1e-30f, 1e30f, 1e-42f};
  // (1) all clouds of up to N points over small alphabets of points
  for (float res : kRes) {
    auto c = [&](double t) { return float(t * res); };
    const std::vector<std::vector<P3>> alphabets{
        {{0, 0, 0}, {-0.f, 0, c(.3)}, {c(1), 0, 0}, {0, c(1), 0}, {0, 0, c(1)}, {c(-1), 0, 0}, {nan, 0, 0}, {0, inf, 0}, {0, 0, -inf}, {c(.5), c(-.5), 0}, {c(1.2), c(-.3), c(.1)}},
        {{c(1048575), 0, 0}, {c(1048574), 0, 0}, {c(1048576), 0, 0}, {c(-1048576), 0, 0}, {c(-1048577), 0, 0}, {c(2097152), 0, 0}, {0, c(2097152), 0}, {0, c(1), 0}, {0, 0, c(-2097152)}, {0, 0, 0}, {c(4194304), 0, 0}},
        {{big, 0, 0}, {-big, 0, 0}, {big, big, big}, {0, big, 0}, {0, 0, big}, {c(2147483648.), 0, 0}, {c(-2147483648.), 0, 0}, {c(4294967296.), 0, 0}, {c(1e12), 0, 0}, {0, 0, 0}, {1e-45f, -1e-45f, 0}},
        {{0, c(1), c(2)}, {0, c(2), c(1)}, {c(1), 0, c(2)}, {c(1), c(2), 0}, {c(2), 0, c(1)}, {c(2), c(1), 0}, {c(1), c(1), c(1)}, {c(2), c(2), c(2)}, {c(-1), c(-2), 0}, {c(-2), c(-1), 0}}};
    for (size_t a = 0; a < alphabets.size(); a++)
      for (size_t first = 0; first < alphabets[a].size(); first++)
        vh::run_case(vh::fmt("sequences/res%g/alphabet%zu/%zu", res, a, first), [&] {
          auto& al = alphabets[a];
          size_t cnt = 0;
          all_sequences((int)al.size(), 0, T ? 4 : 3, [&](const std::vector<int>& d) {
            std::vector<P3> pts{al[first]};
            for (int i : d) pts.push_back(al[i]);
            auto& l = kLays[cnt++ % 4];
            run(pts, l, res);
          });
        });
  }
  // (2) all ordered pairs of values on one axis, the others equal
  for (float res : kRes)
    for (int axis = 0; axis < 3; axis++)
      for (int part = 0; part < 8; part++)
        vh::run_case(vh::fmt("pairs/res%g/axis%d/%d", res, axis, part), [&] {
          std::vector<float> vals;
          for (double t : {0., 1., 2., 3., 1000., 1048573., 1048574., 1048575., 1048576., 1048577., 2097151., 2097152., 2097153., 4194304., 2147483647., 2147483648., 4294967296., 1e12})
            for (double o : {0., .1, .25, -.25, .45, -.45, .5})
              for (double s : {1., -1.}) {
                float v = float((t + o) * s * res);
                if (std::isfinite(v)) vals.push_back(v);
              }
          for (float v : {big, -big, 1e-45f, -1e-45f, -0.f}) vals.push_back(v);
          for (size_t i = part; i < vals.size(); i += 8) {
            for (size_t j = 0; j < vals.size(); j++) {
              P3 p{}, q{};
              for (int k = 0; k < 3; k++) p[k] = q[k] = float(res * (k + 5));
              p[axis] = vals[i];
              q[axis] = vals[j];
              run({p, q}, kLays[(i + j) % 4], res);
            }
            vh::beat();
          }
        });
  // (3) the products of extreme voxel coordinates in one cloud: no false duplicates, each one twice
  for (float res : {0.25f, 0.001f, 1.0f})
    for (int order = 0; order < 3; order++)
      for (size_t l = 0; l < 4; l++)
        vh::run_case(vh::fmt("product/res%g/%d/%zu", res, order, l), [&] {
          std::vector<double> ax{0};
          for (int k : {0, 1, 7, 8, 15, 16, 19, 20, 21, 22})
            for (int s : {1, -1}) {
              if (res == 0.001f && k > 19) continue;  // not clear in single precision
              ax.push_back(s * std::ldexp(1.0, k));
              ax.push_back(s * (std::ldexp(1.0, k) - 1));
            }
          std::sort(ax.begin(), ax.end());
          ax.erase(std::unique(ax.begin(), ax.end()), ax.end());
          std::vector<P3> pts;
          for (int rep = 0; rep < 2; rep++)
            for (double x : ax)
              for (double y : ax)
                for (double z : ax) {
                  P3 p{float(x * res), float(y * res), float(z * res)};
                  if (order == 1) std::swap(p[0], p[2]);
                  if (order == 2) std::swap(p[1], p[2]);
                  pts.push_back(p);
                }
          if (order == 1) std::reverse(pts.begin(), pts.end());
          run_big(pts, kLays[l], res, uint32_t(pts.size()), 1);
        });
  // (4) dense scans and organized clouds, reuse of the scratch memory by clouds of falling and rising size
  for (float res : {0.01f, 0.5f, 2.0f})
    for (int mode = 0; mode < 6; mode++)
      vh::run_case(vh::fmt("scan/res%g/%d", res, mode), [&] {
        for (int n : {40, 3, 25, 1, 42, 40}) {
          std::vector<P3> pts;
          for (int x = 0; x < n; x++)
            for (int y = 0; y < n; y++)
              for (int z = 0; z < (mode < 2 ? n : 5); z++) {
                double o = mode % 2 ? .3 : 0;
                P3 p{float((x - n / 2 + o * (y % 3 - 1)) * res), float((y + o) * res), float((mode >= 4 ? z / 2 : z - n) * res)};
                if (mode == 3 && (x * y + z) % 7 == 0) p[(x + y) % 3] = (z & 1) ? NAN : INFINITY;
                pts.push_back(p);
              }
          run_big(pts, kLays[mode % 4], res, uint32_t(n), uint32_t(pts.size() / n));
          vh::beat();
        }
      });
  // (4b) many other fields; long scans
  for (int nf : wide_counts(T))
    vh::run_case(vh::fmt("many-fields/%d", nf), [&] {
      for (uint32_t base : {0u, 4u, 8u}) {
        const Lay l{base, 40, 100 + nf};
        run({{0, 0, 0}, {1, 1, 1}, {0, 0, 0}, {NAN, 0, 0}, {1, 1, 2}}, l, 0.25f);
        run({{0, 0, 0}}, l, 2.f);
      }
    });
  for (int n : {65535, 65536, 65537, 100000, 262145})
    for (int dup : {0, 1, 2})
      vh::run_case(vh::fmt("long/%d/%d", n, dup), [&] {
        std::vector<P3> pts;
        for (int i = 0; i < n; i++) {
          const int k = dup == 2 ? i / 2 : i;
          pts.push_back({float(k % 512), float(k / 512 % 512), float(k / 262144)});
          if (dup == 1 && i % 5 == 4) pts.push_back(pts[size_t(i) * 7 % pts.size()]);
        }
        run_big(pts, kLays[dup], 0.5f, uint32_t(pts.size()), 1);
      });
  // (5) clouds that are not to be touched
  vh::run_case("untouched", [&] {
    const Lay l{0, 32, 1};
    const Bytes in = cloud({{1, 1, 1}, {1, 1, 1}, {NAN, 0, 0}}, l);
    std::vector<std::pair<std::string, std::function<void(RosPointCloud2&)>>> ed;
    for (int k = 0; k < 3; k++) {
      for (auto t : kAllTypes)
        if (t != FT::FLOAT32) ed.push_back({"type", [=](RosPointCloud2& p) { p.fields[k].type = t; }});
      ed.push_back({"no resolution", [=](RosPointCloud2& p) { p.fields[k].resolution.reset(); }});
      ed.push_back({"other resolution", [=](RosPointCloud2& p) { p.fields[k].resolution = std::nextafter(0.25f, 1.f); }});
      for (uint32_t o : {0u, 4u, 8u, 12u, 16u, 1u, 29u, 0xFFFFFFFFu, 0xFFFFFFFCu})
        if (o != 4u * k) ed.push_back({"offset", [=](RosPointCloud2& p) { p.fields[k].offset = o; }});
    }
    for (float r : {0.f, -0.f, -1.f, NAN, INFINITY, -INFINITY})
      ed.push_back({"bad resolution", [=](RosPointCloud2& p) {
                      for (int k = 0; k < 3; k++) p.fields[k].resolution = r;
                    }});
    for (int n = 0; n < 3; n++) ed.push_back({"few fields", [=](RosPointCloud2& p) { p.fields.resize(n); }});
    ed.push_back({"not leading", [=](RosPointCloud2& p) { std::rotate(p.fields.begin(), p.fields.begin() + 4, p.fields.end()); }});
    ed.push_back({"point_step 0", [=](RosPointCloud2& p) { p.point_step = 0; }});
    for (uint32_t s = 1; s < 12; s++) ed.push_back({"small point_step", [=](RosPointCloud2& p) { p.point_step = s; }});
    for (uint32_t b : {0xFFFFFFF8u, 0xFFFFFFF4u, 21u, 0x7FFFFFFFu, 0xFFFFFFFFu})
      ed.push_back({"triple outside of the point", [=](RosPointCloud2& p) {
                      for (int k = 0; k < 3; k++) p.fields[k].offset = b + 4 * k;
                    }});
    ed.push_back({"no data", [=](RosPointCloud2& p) { p.data = ConstBufferView(p.data.data(), 0); }});
    ed.push_back({"less than a point", [=](RosPointCloud2& p) { p.data = ConstBufferView(p.data.data(), 31); }});
    for (auto& [what, fn] : ed) {
      RosPointCloud2 pc = make(in, l, 0.25f, 3, 1);
      fn(pc);
      RosPointCloud2 before = pc;
      cloudini_ros::applyVizLossyPreprocessing(pc);
      vh::transition();
      for (auto* x : {&pc, &before})  // NaN equals itself here
        for (auto& f : x->fields)
          if (f.resolution && std::isnan(*f.resolution)) f.resolution = 12345.f;
      if (pc.fields != before.fields || pc.width != before.width || pc.height != before.height || pc.point_step != before.point_step || pc.row_step != before.row_step || pc.data.data() != before.data.data() ||
          pc.data.size() != before.data.size() || !pc.owned_data.empty())
        vh::fail("touched", "%s: the cloud was changed although it has no leading triple", what.c_str());
      vh::validated();
    }
  });
  return vh::finish();
}
