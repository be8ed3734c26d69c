// C15: histories of copies, moves, assignments, preprocessing and destructions of ROS clouds against a model with value semantics.
#include "cloudini_lib/ros_msg_utils.hpp"
#include "gen.hpp"
using namespace cl;
using cloudini_ros::RosPointCloud2;

static constexpr int kSlots = 3;
enum OpKind { Create, CreateOwned, CopyCtor, MoveCtor, CopyAssign, MoveAssign, Preprocess, Destroy, FreeSource, Swap, Convert, Resize, Return, View };
struct Op {
  OpKind k;
  int a, b;
};
static const char* kNames[] = {"create", "create-owned", "copy-construct", "move-construct", "copy-assign", "move-assign", "preprocess", "destroy", "free-source", "swap", "convert", "vector-growth", "by-value", "set-view"};

// model of one object: the value it must show
struct Model {
  bool live = false, moved = false;  // moved: may only be assigned to or destroyed
  int source = -1;                   // external buffer it views, -1: owns its data
  Bytes data;
  uint32_t width = 0, height = 1, step = 16, row = 0;
  std::string frame;
  std::vector<PointField> fields;
  bool dense = true, big = false;
  int32_t sec = 0;
  uint32_t nsec = 0;
};
static std::vector<PointField> lay(int k) {
  std::vector<PointField> f{{"x", 0, FT::FLOAT32, 0.5f}, {"y", 4, FT::FLOAT32, 0.5f}, {"z", 8, FT::FLOAT32, 0.5f}};
  if (k == 1) f.push_back({"t", 12, FT::FLOAT64, {}});
  else f.push_back({"id", 12, FT::UINT32, {}});
  return f;
}
// source k: a few points with one duplicate and one NaN; source 2: all points are dropped
static Bytes source(int k) {
  const uint32_t step = k == 1 ? 20 : 16;
  const float pts[][3] = {{0, 1, 2}, {0, 1, 2.1f}, {NAN, 0, 0}, {float(3 + k), 1, 2}};
  Bytes b(step * (k == 2 ? 1 : 4), uint8_t(0x30 + k));
  for (size_t p = 0; p < b.size() / step; p++)
    for (int a = 0; a < 3; a++) put<float>(b, p * step + 4 * a, k == 2 ? NAN : pts[p][a]);
  return b;
}
static void model_preprocess(Model& m) {
  if (m.data.empty()) return;
  Bytes out;
  size_t n = 0;
  std::set<std::array<long, 3>> seen;
  for (size_t p = 0; p < m.data.size() / m.step; p++) {
    float v[3];
    memcpy(v, m.data.data() + p * m.step, 12);
    if (std::isnan(v[0])) continue;
    if (!seen.insert({std::lround(v[0] * 2), std::lround(v[1] * 2), std::lround(v[2] * 2)}).second) continue;
    out.insert(out.end(), m.data.begin() + p * m.step, m.data.begin() + (p + 1) * m.step);
    n++;
  }
  m.data = out;
  m.source = -1;
  m.width = (uint32_t)n;
  m.height = 1;
  m.row = m.width * m.step;
  for (auto& f : m.fields)
    if (f.type == FT::FLOAT64 && !f.resolution) f.resolution = 1e-6f;
}

struct World {
  alignas(RosPointCloud2) unsigned char mem[kSlots][sizeof(RosPointCloud2)];
  Model m[kSlots];
  std::unique_ptr<uint8_t[]> src[3];
  size_t src_n[3];
  RosPointCloud2& at(int i) { return *std::launder(reinterpret_cast<RosPointCloud2*>(mem[i])); }
  World() {
    for (int k = 0; k < 3; k++) {
      Bytes b = source(k);
      src[k].reset(new uint8_t[b.size()]);  // plain heap memory: a use after free is seen by the sanitizer
      memcpy(src[k].get(), b.data(), b.size());
      src_n[k] = b.size();
    }
  }
  ~World() {
    for (int i = 0; i < kSlots; i++)
      if (m[i].live) at(i).~RosPointCloud2();
  }
  bool readable(int i) const { return m[i].live && !m[i].moved && (m[i].source < 0 || src[m[i].source]); }
  static void set_meta(RosPointCloud2& o, Model& x, int k) {
    x.live = true;
    x.moved = false;
    x.step = k == 1 ? 20 : 16;
    // organised in rows for one of them; the row step is a member like the others: every object gets its own
    x.height = k == 1 ? 2 : 1;
    x.width = uint32_t(x.data.size() / x.step) / x.height;
    x.row = x.width * x.step + 32 * (k + 1);
    x.frame = k == 1 ? "a long frame identifier, not stored inside of the string object" : "map";
    x.fields = lay(k);
    x.dense = k != 1;
    x.big = k == 2;
    x.sec = 100 + k;
    x.nsec = 5 + 3 * k;
    o.height = x.height;
    o.width = x.width;
    o.fields = x.fields;
    o.point_step = x.step;
    o.row_step = x.row;
    o.is_dense = x.dense;
    o.is_bigendian = x.big;
    o.ros_header.frame_id = x.frame;
    o.ros_header.stamp_sec = x.sec;
    o.ros_header.stamp_nsec = x.nsec;
    o.cdr_header.endianness = x.big ? nanocdr::Endianness::CDR_BIG_ENDIAN : nanocdr::Endianness::CDR_LITTLE_ENDIAN;
  }
  bool legal(const Op& op) const {
    const Model &a = m[op.a], &b = m[op.b];
    switch (op.k) {
      case Create: case CreateOwned: {
        if (op.k == Create && !src[op.b]) return false;
        for (int i = 0; i < op.a; i++)
          if (!m[i].live) return false;  // slots are interchangeable: take the first free one
        return !a.live;
      }
      case CopyCtor: case MoveCtor: {
        for (int i = 0; i < op.a; i++)
          if (!m[i].live) return false;
        return !a.live && b.live && !b.moved;
      }
      case CopyAssign: case MoveAssign: return a.live && b.live && !b.moved;
      case Swap: return op.a < op.b && a.live && b.live && !a.moved && !b.moved;
      case Preprocess: case Convert: return readable(op.a);
      case Resize: case Return: return a.live && !a.moved;
      case View: return a.live && !a.moved && a.source < 0 && a.step == 16 && src[op.b];
      case Destroy: return a.live;
      case FreeSource: return bool(src[op.a]);
    }
    return false;
  }
  void check(const char* when) {
    for (int i = 0; i < kSlots; i++) {
      if (!m[i].live || m[i].moved) continue;
      const Model& x = m[i];
      RosPointCloud2& o = at(i);
      if (o.width != x.width || o.height != x.height || o.point_step != x.step || o.row_step != x.row || o.fields != x.fields || o.is_dense != x.dense || o.is_bigendian != x.big ||
          o.ros_header.frame_id != x.frame || o.ros_header.stamp_sec != x.sec || o.ros_header.stamp_nsec != x.nsec ||
          (o.cdr_header.endianness == nanocdr::Endianness::CDR_BIG_ENDIAN) != x.big)
        vh::fail("members", "after %s: a member of object %d differs from its value", when, i);
      if (o.data.size() != x.data.size()) vh::fail("size", "after %s: object %d shows %zu bytes instead of %zu", when, i, o.data.size(), x.data.size());
      if (x.source < 0) {
        if (!x.data.empty() && (o.data.data() < o.owned_data.data() || o.data.data() + o.data.size() > o.owned_data.data() + o.owned_data.size()))
          vh::fail("alias", "after %s: the data of object %d is not its own memory", when, i);
      } else if (o.data.data() != src[x.source].get() && src[x.source])
        vh::fail("view", "after %s: object %d no longer refers to the message it was made from", when, i);
      if (readable(i) && x.data.size() && memcmp(o.data.data(), x.data.data(), x.data.size()) != 0) vh::fail("data", "after %s: the data of object %d differs from its value", when, i);
    }
  }
  void apply(const Op& op) {
    const int i = op.a, j = op.b;
    switch (op.k) {
      case Create: {
        auto* o = new (mem[i]) RosPointCloud2();
        m[i].data.assign(src[j].get(), src[j].get() + src_n[j]);
        m[i].source = j;
        set_meta(*o, m[i], j);
        o->data = ConstBufferView(src[j].get(), src_n[j]);
        break;
      }
      case CreateOwned: {
        auto* o = new (mem[i]) RosPointCloud2();
        m[i].data = source(j);
        m[i].source = -1;
        set_meta(*o, m[i], j);
        o->owned_data = m[i].data;
        o->data = ConstBufferView(o->owned_data.data(), o->owned_data.size());
        break;
      }
      case CopyCtor: new (mem[i]) RosPointCloud2(static_cast<const RosPointCloud2&>(at(j))); m[i] = m[j]; break;
      case MoveCtor: new (mem[i]) RosPointCloud2(std::move(at(j))); m[i] = m[j]; m[j].moved = true; break;
      case CopyAssign: {
        const RosPointCloud2& s = at(j);
        at(i) = s;
        Model t = m[j];
        m[i] = t;
        break;
      }
      case MoveAssign:
        at(i) = std::move(at(j));
        if (i != j) {
          m[i] = m[j];
          m[j].moved = true;
        }
        break;
      case Preprocess: cloudini_ros::applyVizLossyPreprocessing(at(i)); model_preprocess(m[i]); break;
      case Destroy: at(i).~RosPointCloud2(); memset(mem[i], 0xDD, sizeof mem[i]); m[i] = Model(); break;
      case FreeSource: src[i].reset(); break;
      case Swap: std::swap(at(i), at(j)); std::swap(m[i], m[j]); break;
      case Convert: {
        // a user: the compressed form of the message holds the value
        auto info = cloudini_ros::toEncodingInfo(at(i));
        info.encoding_opt = EncodingOptions::NONE;
        info.compression_opt = CompressionOption::NONE;
        Bytes out;
        cloudini_ros::convertPointCloud2ToCompressedCloud(at(i), info, out);
        break;
      }
      case Resize: {
        // growth of a vector that holds the object moves it
        std::vector<RosPointCloud2> v;
        v.push_back(std::move(at(i)));
        v.reserve(v.capacity() + 1);
        v.insert(v.begin(), RosPointCloud2(v[0]));
        at(i) = std::move(v[1]);
        break;
      }
      case Return: {
        // passed and returned by value
        auto f = [](RosPointCloud2 x) {
          RosPointCloud2 y = x;
          x = RosPointCloud2();
          return y;
        };
        at(i) = f(at(i));
        break;
      }
      case View: {
        // the user lets an object that owns memory refer to a message again
        at(i).data = ConstBufferView(src[j].get(), src_n[j]);
        m[i].data.assign(src[j].get(), src[j].get() + src_n[j]);
        m[i].source = j;
        break;
      }
    }
    vh::transition();
  }
};

int main(int argc, char** argv) {
  vh::init(argc, argv);
  const int depth = vh::thorough() ? 5 : 4;
  std::vector<Op> ops;
  for (int i = 0; i < kSlots; i++) {
    for (int k = 0; k < 3; k++) ops.push_back({Create, i, k});
    for (int k = 0; k < 2; k++) ops.push_back({CreateOwned, i, k});
    for (int j = 0; j < kSlots; j++) {
      if (i != j) {
        ops.push_back({CopyCtor, i, j});
        ops.push_back({MoveCtor, i, j});
        ops.push_back({Swap, i, j});
      }
      ops.push_back({CopyAssign, i, j});
      ops.push_back({MoveAssign, i, j});
    }
    ops.push_back({View, i, 0});
    for (auto k : {Preprocess, Destroy, FreeSource, Convert, Resize, Return}) ops.push_back({k, i, i});
  }
  // depth-first over all legal sequences; a sequence is executed from the beginning and checked at its end (its prefixes were checked before)
  std::vector<Op> seq;
  uint64_t n = 0;
  std::function<void(int)> dfs = [&](int left) {
    // replay
    World w;
    std::string tr;
    for (size_t k = 0; k < seq.size(); k++) w.apply(seq[k]);
    if (!seq.empty()) {
      for (auto& p : seq) tr += vh::fmt("%s(%d,%d) ", kNames[p.k], p.a, p.b);
      w.check(tr.c_str());
      vh::validated();
      vh::state_bytes(tr.data(), tr.size());
      if (++n % 1024 == 0) vh::beat();
    }
    if (!left) return;
    std::vector<Op> next;
    for (auto& o : ops)
      if (w.legal(o)) next.push_back(o);
    for (auto& o : next) {
      seq.push_back(o);
      dfs(left - 1);
      seq.pop_back();
    }
  };
  // the interesting histories start with one or two live objects: prefixes of depth 2 are the cases
  {
    std::vector<std::vector<Op>> pre;
    World w0;
    for (auto& a : ops)
      if (w0.legal(a)) {
        World w1;
        w1.apply(a);
        for (auto& b : ops)
          if (w1.legal(b)) {
            pre.push_back({a, b});
          }
      }
    for (auto& p : pre)
      vh::run_case(vh::fmt("history/%s(%d,%d)/%s(%d,%d)", kNames[p[0].k], p[0].a, p[0].b, kNames[p[1].k], p[1].a, p[1].b), [&] {
        seq = {p[0]};
        {
          World w;
          w.apply(seq[0]);
          w.check("the first operation");
        }
        seq = p;
        dfs(depth - 1);  // two more than the depth in the title: creation is not counted
        seq.clear();
      });
  }
  return vh::finish();
}
