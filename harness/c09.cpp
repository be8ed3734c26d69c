// C09: histories of operations on reused encoders, decoders and output buffers.  Every operation of a history must have the
// result that it has with fresh objects (computed once, in a thread of its own, so that no thread-local state is shared either).
#include <thread>

#include "cloudini_lib/ros_msg_utils.hpp"
#include "gen.hpp"
#include "ref.hpp"
using namespace cl;

static const size_t P = ref::kChunk;
template <class Fn>
static void in_new_thread(Fn&& fn) {
  std::exception_ptr e;
  std::thread t([&] {
    try {
      fn();
    } catch (...) {
      e = std::current_exception();
    }
  });
  t.join();
  if (e) std::rethrow_exception(e);
}

// ---- encoder ----
struct EncOp {
  enum Kind { Vec, View, ViewHeader, BadSize, SmallBuffer } kind;
  size_t n;
  int style;
};
static const std::vector<EncOp> kEncOps{{EncOp::Vec, 0, 0}, {EncOp::Vec, 1, 0}, {EncOp::Vec, 3, 2}, {EncOp::View, P + 1, 0}, {EncOp::Vec, 2 * P + 3, 1}, {EncOp::ViewHeader, 2, 1}, {EncOp::View, P, 2},
                                        {EncOp::BadSize, 2, 0}, {EncOp::SmallBuffer, 5, 0}, {EncOp::SmallBuffer, P + 2, 1}};
static std::optional<Bytes> run_enc(PointcloudEncoder& e, const EncodingInfo& info, const std::vector<Bytes>& clouds, size_t op, Bytes& reused) {
  const EncOp& o = kEncOps[op];
  const Bytes& cloud = clouds[op];
  vh::transition();
  ConstBufferView in(cloud.data(), cloud.size());
  try {
    switch (o.kind) {
      case EncOp::Vec: {
        size_t n = e.encode(in, reused);
        if (n != reused.size()) vh::fail("size-return", "encode() returned %zu but the vector holds %zu bytes", n, reused.size());
        return reused;
      }
      case EncOp::View:
      case EncOp::ViewHeader: {
        Bytes b(MaxCompressedSize(info, o.n, o.kind == EncOp::ViewHeader), 0xA5);
        BufferView v(b.data(), b.size());
        b.resize(e.encode(in, v, o.kind == EncOp::ViewHeader));
        return b;
      }
      case EncOp::BadSize: {
        if (info.point_step == 1) return std::nullopt;
        size_t n = e.encode(ConstBufferView(cloud.data(), cloud.size() - 1), reused);
        vh::fail("bad-size", "a cloud with an incomplete point was encoded (%zu bytes)", n);
      }
      case EncOp::SmallBuffer: {
        Bytes b(6, 0xA5);
        BufferView v(b.data(), b.size());
        e.encode(in, v, false);
        vh::fail("small-buffer", "%zu points were encoded in 6 bytes", o.n);
      }
    }
  } catch (const std::exception&) {
  }
  return std::nullopt;
}

static void encoder_histories(const Config& c, const std::vector<int>& k, int packing, int depth, const std::vector<int>& ops) {
  uint32_t step;
  auto f = layout(k, packing, step, 0.25f);
  auto info = make_info(c, f, step, 0);
  std::vector<Bytes> clouds;
  for (auto& o : kEncOps) clouds.push_back(make_cloud(o.n, f, step, o.style));
  std::vector<std::optional<Bytes>> want(kEncOps.size());
  for (int q : ops)
    in_new_thread([&] {
      PointcloudEncoder e(info);
      Bytes out;
      want[q] = run_enc(e, info, clouds, q, out);
    });
  all_sequences((int)ops.size(), 2, depth, [&](const std::vector<int>& d) {
    if (depth > 2 && (int)d.size() < depth) return;  // every shorter history is a prefix of a longer one
    PointcloudEncoder e(info);
    Bytes out(d.size() == 3 ? 100000 / (1 + d[0] * 50) : 0, 0x11);
    std::string hist;
    for (int q : d) {
      int op = ops[q];
      auto got = run_enc(e, info, clouds, op, out);
      hist += vh::fmt("%d:%zu ", (int)kEncOps[op].kind, kEncOps[op].n);
      if (got.has_value() != want[op].has_value())
        vh::fail("outcome", "%s %s: in the history [%s] the last call %s, with a fresh encoder it %s", c.str().c_str(), lname(k).c_str(), hist.c_str(), got ? "succeeds" : "fails", want[op] ? "succeeds" : "fails");
      if (got && *got != *want[op]) vh::fail("leak", "%s %s: the history [%s] ends with another stream than a fresh encoder produces", c.str().c_str(), lname(k).c_str(), hist.c_str());
      if (got) vh::state_bytes(got->data(), got->size());
    }
    vh::validated();
    vh::beat();
  });
}

// ---- decoder ----
struct DecOp {
  EncodingInfo info;
  Bytes payload;
  size_t out;
  std::string name;
  bool ok = false;
  Bytes want;
};
static std::optional<Bytes> run_dec(PointcloudDecoder& d, const DecOp& o, Bytes* vec) {
  vh::transition();
  try {
    if (vec) {
      // the vector overload does not clear the bytes which belong to no field
      vec->assign(vec->size(), 0xCD);
      d.decode(o.info, ConstBufferView(o.payload.data(), o.payload.size()), *vec);
      return *vec;
    }
    Bytes b(o.out, 0xCD);
    d.decode(o.info, ConstBufferView(o.payload.data(), o.payload.size()), BufferView(b.data(), b.size()));
    return b;
  } catch (const std::exception&) {
    return std::nullopt;
  }
}
static std::vector<DecOp> dec_ops(int set, bool big) {
  static const std::vector<std::vector<int>> L{{0, 0, 0, 6}, {3, 1}, {8, 5, 10}, {0, 0, 0, 0}, {2, 3, 7}, {4}, {3, 3}, {11, 0, 1}};
  std::vector<DecOp> r;
  auto cfgs = all_configs({2, 3, 4, 5}, false);
  int j = 0;
  for (size_t l = 0; l < L.size(); l++)
    for (int q = 0; q < 3; q++, j++) {
      const Config& c = cfgs[(j * 7 + set * 5 + q * 11) % cfgs.size()];
      uint32_t step;
      auto f = layout(L[l], int(l + set) % 3, step, 0.25f);
      size_t n = q == 0 ? 3 : q == 1 ? P + 2 : 2 * P + 1;
      if (!big && n > 300) n = 7 + q;
      if (big && n > P + 2) n = 9;
      auto info = make_info(c, f, step, (uint32_t)n);
      if (q == 2) {
        info.width = 1;
        info.height = (uint32_t)n;
      }
      DecOp o{info, ref::encode_payload(info, make_cloud(n, f, step, q)), n * step, c.str() + "/" + lname(L[l]) + vh::fmt("/%zu", n)};
      r.push_back(o);
      if (q == 0) {  // fails half-way: cut in the last chunk
        DecOp t = o;
        if (t.payload.size() > 3) t.payload.resize(t.payload.size() - 2);
        t.name += "/cut";
        r.push_back(t);
      } else if (q == 1) {  // fails in the header of a chunk, or because the output is too small
        DecOp t = o;
        if (l % 2) t.out -= step;
        else t.payload.resize(2);
        t.name += l % 2 ? "/small output" : "/two bytes";
        r.push_back(t);
      } else if (l % 2) {
        DecOp t = o;
        t.info.fields[0].offset = step;
        t.name += "/bad layout";
        r.push_back(t);
      } else {
        DecOp t = o;
        t.info.encoding_opt = EncodingOptions((int(t.info.encoding_opt) + 1) % 3);
        t.name += "/other options";
        r.push_back(t);
      }
      if (q == 0 && l % 2 == (size_t)set % 2) {  // nearly the same description
        static const int ver[] = {3, 4, 5, 2};
        EncodingInfo i2 = info;
        if (l % 4 < 2) i2.version = ver[(c.version + set) % 4];
        for (auto& x : i2.fields)
          if (x.resolution && (set / 2) % 2) x.resolution = *x.resolution * 3;
        if (set % 3 == 1) i2.fields[0].offset = i2.fields.back().offset;
        DecOp t{i2, ref::encode_payload(i2, make_cloud(n, i2.fields, step, 1)), n * step, vh::fmt("v%d/variant of ", i2.version) + c.str() + "/" + lname(L[l])};
        r.push_back(t);
        i2.point_step += 3;
        DecOp t2{i2, o.payload, n * i2.point_step, "wider points " + c.str() + "/" + lname(L[l])};
        t2.info.fields = info.fields;
        t2.info.version = info.version;
        r.push_back(t2);
      }
    }
  for (auto& o : r)
    in_new_thread([&] {
      PointcloudDecoder d;
      auto w = run_dec(d, o, nullptr);
      o.ok = w.has_value();
      if (w) o.want = *w;
    });
  return r;
}

// ---- ROS conversions ----
static cloudini_ros::RosPointCloud2 ros_cloud(const std::vector<int>& k, size_t n, int style, Bytes& storage) {
  uint32_t step;
  auto f = layout(k, 0, step, 0.25f);
  if (f.size() > 2 && f[2].resolution) f[1].resolution = f[2].resolution = f[0].resolution;
  storage = make_cloud(n, f, step, style);
  cloudini_ros::RosPointCloud2 p;
  p.ros_header.frame_id = std::string(k.size() + n % 5, 'm');
  p.ros_header.stamp_sec = (int)n;
  p.width = (uint32_t)n;
  p.fields = f;
  p.point_step = step;
  p.row_step = step * p.width;
  p.data = ConstBufferView(storage.data(), storage.size());
  return p;
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  const bool T = vh::thorough();
  const bool small = P < 1000;
  std::vector<std::vector<int>> lay{{0, 0, 0, 6}, {0}, {1}, {2}, {3}, {4, 5}, {6}, {8, 9}, {10, 11}, {0, 0, 0, 0}, {3, 3, 7}, {5, 1, 8, 2}};
  std::vector<int> all(kEncOps.size());
  for (size_t i = 0; i < all.size(); i++) all[i] = (int)i;
  for (auto& c : all_configs({3, 4, 5}, true))
    for (size_t l = 0; l < lay.size(); l++) {
      if (!small && !T && (l % 4 || c.threads)) continue;
      vh::run_case_l([&] { return "encoder/" + c.str() + "/" + lname(lay[l]); }, [&] {
        if (!small) {
          encoder_histories(c, lay[l], 0, 2, all);
          return;
        }
        encoder_histories(c, lay[l], int(l % 3), c.threads ? 2 : T ? 4 : 3, all);
        if (c.threads && (l % 3 == 0 || T)) encoder_histories(c, lay[l], 1, 3, T ? all : std::vector<int>{1, 3, 4, 7, 9});
      });
    }
  for (int set = 0; set < (small ? (T ? 36 : 8) : (T ? 12 : 3)); set++) {
    auto ops = dec_ops(set, !small);
    for (size_t first = 0; first < ops.size(); first++)
      vh::run_case_l([&] { return vh::fmt("decoder/%d/%s", set, ops[first].name.c_str()); }, [&] {
        for (auto& o : ops) vh::outcome(o.ok ? "operation succeeds alone" : "operation fails alone");
        all_sequences((int)ops.size(), 1, small ? (T ? 3 : 2) : 1, [&](const std::vector<int>& d) {
          if (small && (int)d.size() < (T ? 3 : 2)) return;
          PointcloudDecoder dec;
          Bytes vec;
          std::string hist;
          for (size_t i = 0; i <= d.size(); i++) {
            auto& o = ops[i == 0 ? first : d[i - 1]];
            bool usevec = o.out == size_t(o.info.width) * o.info.height * o.info.point_step && (i + d.size() + d[0]) % 2;
            if (usevec) vec.resize(o.out, 0xCD);
            auto got = run_dec(dec, o, usevec ? &vec : nullptr);
            hist += "[" + o.name + "] ";
            if (got.has_value() != o.ok) vh::fail("dec-outcome", "history %s: the last decode %s, with a fresh decoder it %s", hist.c_str(), got ? "succeeds" : "fails", o.ok ? "succeeds" : "fails");
            if (got && *got != o.want) vh::fail("dec-leak", "history %s: the last decode returns other data than with a fresh decoder", hist.c_str());
          }
          vh::validated();
        });
        vh::beat();
      });
  }
  // several encoders and a decoder alternating in one thread, sharing the output vector
  for (auto& c : all_configs({3, 4, 5}, true))
    for (int v = 0; v < (T ? 12 : 3); v++) {
      if (!small) continue;
      vh::run_case_l([&] { return vh::fmt("alternating/%s/%d", c.str().c_str(), v); }, [&] {
        struct Obj { EncodingInfo info; std::vector<Bytes> clouds; std::vector<std::optional<Bytes>> want; };
        auto cf = all_configs({3, 4, 5}, true);
        std::vector<Obj> objs;
        for (int o = 0; o < 3; o++) {
          uint32_t step;
          auto f = layout(lay[(v * 5 + o * 4) % lay.size()], o, step, 0.25f);
          Config cc = o == 0 ? c : cf[(v * 13 + o * 17) % cf.size()];
          if (!T) cc.threads = o == 0 && c.threads;
          Obj b{make_info(cc, f, step, 0), {}, std::vector<std::optional<Bytes>>(kEncOps.size())};
          for (auto& q : kEncOps) b.clouds.push_back(make_cloud(q.n, f, step, q.style));
          objs.push_back(b);
        }
        static const int use[] = {1, 3, 4, 9};
        for (auto& o : objs)
          for (int q : use)
            in_new_thread([&] {
              PointcloudEncoder e(o.info);
              Bytes out;
              o.want[q] = run_enc(e, o.info, o.clouds, q, out);
            });
        all_sequences(12, T ? 4 : 3, T ? 4 : 3, [&](const std::vector<int>& d) {
          std::vector<std::unique_ptr<PointcloudEncoder>> e(3);
          Bytes out;
          for (int s : d) {
            auto& o = objs[s / 4];
            if (!e[s / 4]) e[s / 4] = std::make_unique<PointcloudEncoder>(o.info);
            int q = use[s % 4];
            auto got = run_enc(*e[s / 4], o.info, o.clouds, q, out);
            if (got.has_value() != o.want[q].has_value() || (got && *got != *o.want[q])) vh::fail("cross-talk", "%s: alternating encoders influence each other (operation %d)", c.str().c_str(), s);
          }
          vh::validated();
          vh::beat();
        });
      });
    }
  // conversions of ROS messages that share their output vectors
  static const std::vector<std::vector<int>> R{{0, 0, 0, 6}, {3, 5}, {0, 0, 0, 3}, {8}};
  for (int set = 0; set < (small ? 4 : 2); set++)
    for (int first = 0; first < 12; first++)
      vh::run_case_l([&] { return vh::fmt("messages/%d/%d", set, first); }, [&] {
        struct Msg { Bytes store; cloudini_ros::RosPointCloud2 pc; EncodingInfo info; Bytes packed; };
        std::vector<std::unique_ptr<Msg>> m;
        for (int i = 0; i < 4; i++) {
          auto x = std::make_unique<Msg>();
          size_t n = i == 3 ? 0 : i == 1 ? 2 : 4 + P % 1000;
          x->pc = ros_cloud(R[(i + set) % 4], n, i % 3, x->store);
          x->info = cloudini_ros::toEncodingInfo(x->pc);
          x->info.version = 3 + (i + set) % 3;
          x->info.use_threads = set % 2;
          in_new_thread([&] { cloudini_ros::convertPointCloud2ToCompressedCloud(x->pc, x->info, x->packed); });
          m.push_back(std::move(x));
        }
        auto op = [&](int k, Bytes& a, Bytes& b) -> Bytes {
          Msg& x = *m[k % 4];
          vh::transition();
          if (k < 4) {
            cloudini_ros::convertPointCloud2ToCompressedCloud(x.pc, x.info, a);
            return a;
          }
          if (k < 8) {
            auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(x.packed.data(), x.packed.size()));
            cloudini_ros::convertCompressedCloudToPointCloud2(pc, b);
            return b;
          }
          cloudini_ros::RosPointCloud2 pc = x.pc;
          cloudini_ros::applyVizLossyPreprocessing(pc);
          Bytes r(pc.data.data(), pc.data.data() + pc.data.size());
          r.push_back(uint8_t(pc.width));
          return r;
        };
        std::vector<Bytes> want(12);
        for (int k = 0; k < 12; k++)
          in_new_thread([&] {
            Bytes a, b;
            want[k] = op(k, a, b);
          });
        all_sequences(12, 3, T ? 4 : 3, [&](const std::vector<int>& d) {
          Bytes a(7, 0x22), b(50000, 0x33);
          for (size_t i = 0; i <= d.size(); i++) {
            int k = i ? d[i - 1] : first;
            if (op(k, a, b) != want[k]) vh::fail("msg-leak", "conversion %d after other conversions gives another result than alone", k);
          }
          vh::validated();
          vh::beat();
        });
      });
  return vh::finish();
}
