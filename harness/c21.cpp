// C21: every build of the library (instruction set, compiler, optimisation) reads every stream identically, and what one
// build writes obeys the guarantees when any other build reads it. The builds are loaded as shared objects.
#include <dlfcn.h>

#include "cdr.hpp"
#include "gen.hpp"
#include "ref.hpp"
#include "variant/variant.h"
using namespace cl;

struct Variant {
  std::string name;
  v_encode_t enc;
  v_decode_t dec;
  v_message_t msg;
};
static std::vector<Variant> g_v;
static void load() {
  const char* e = getenv("VERIF_VARIANTS");
  std::string s = e ? e : "";
  for (size_t at = 0; at < s.size();) {
    size_t end = std::min(s.find(':', at), s.size()), eq = s.find('=', at);
    Variant v{s.substr(at, eq - at)};
    void* h = dlopen(s.substr(eq + 1, end - eq - 1).c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) {
      fprintf(stderr, "%s\n", dlerror());
      exit(2);
    }
    v.enc = (v_encode_t)dlsym(h, "v_encode");
    v.dec = (v_decode_t)dlsym(h, "v_decode");
    v.msg = (v_message_t)dlsym(h, "v_message");
    g_v.push_back(v);
    at = end + 1;
  }
  if (g_v.size() < 2) exit(2);
}
struct Res {
  int rc;
  Bytes out;
  std::string err;
  bool operator==(const Res& o) const { return rc == o.rc && out == o.out; }
};
static Bytes g_buf;
template <class Fn>
static Res call(size_t cap, Fn&& fn) {
  if (g_buf.size() < cap + 64) g_buf.resize(cap + 64);
  char err[256] = "";
  size_t n = cap;
  Res r{fn(g_buf.data(), &n, err), {}, {}};
  if (r.rc == 0) r.out.assign(g_buf.begin(), g_buf.begin() + n);
  r.err = err;
  vh::transition();
  return r;
}
static Res vdecode(const Variant& v, const Bytes& s, size_t cap) {
  return call(cap, [&](uint8_t* o, size_t* n, char* err) { return v.dec(s.data(), s.size(), 0xCD, o, n, err); });
}
static Res vencode(const Variant& v, const EncodingInfo& i, const Bytes& cloud) {
  std::vector<VField> f;
  for (auto& x : i.fields) f.push_back({x.name.c_str(), x.offset, uint8_t(x.type), x.resolution.value_or(0)});
  VDesc d{i.width, i.height, i.point_step, int(i.encoding_opt), int(i.compression_opt), int(i.version), i.use_threads, f.data(), f.size()};
  return call(cloud.size() * 12 + 4096, [&](uint8_t* o, size_t* n, char* err) { return v.enc(&d, cloud.data(), cloud.size(), o, n, err); });
}
// every build encodes, every build decodes
static void cross(const Config& c, const EncodingInfo& info, const Bytes& cloud, const char* what) {
  std::vector<Bytes> seen;
  for (auto& w : g_v) {
    Res e = vencode(w, info, cloud);
    if (e.rc) vh::fail("encode", "%s: the %s build cannot encode a supported cloud: %s", what, w.name.c_str(), e.err.c_str());
    if (std::find(seen.begin(), seen.end(), e.out) != seen.end()) continue;
    seen.push_back(e.out);
    Bytes first;
    for (auto& r : g_v) {
      Res d = vdecode(r, e.out, cloud.size());
      if (d.rc) vh::fail("decode", "%s: the %s build refuses a stream of the %s build: %s", what, r.name.c_str(), w.name.c_str(), d.err.c_str());
      if (&r == &g_v[0]) {
        first = d.out;
        check_cloud(c, info, cloud, d.out, 0xCD, vh::fmt("%s, written by %s, read by %s", what, w.name.c_str(), r.name.c_str()));
      } else if (d.out != first)
        vh::fail("differs", "%s: a stream of the %s build is decoded differently by the builds %s and %s", what, w.name.c_str(), g_v[0].name.c_str(), r.name.c_str());
    }
    vh::state_bytes(e.out.data(), e.out.size());
    vh::validated();
  }
  vh::outcome(seen.size() == 1 ? "one encoding" : "several encodings");
}
static void same_verdict(const Bytes& s, size_t cap) {
  Res a = vdecode(g_v[0], s, cap);
  for (size_t k = 1; k < g_v.size(); k++) {
    Res b = vdecode(g_v[k], s, cap);
    if (!(a == b)) vh::fail("damaged", "a damaged stream is %s by the %s build and %s by the %s build (%s%s): %s", a.rc ? "refused" : "accepted", g_v[0].name.c_str(), b.rc ? "refused" : a.rc ? "accepted" : "read differently",
                            g_v[k].name.c_str(), a.err.c_str(), b.err.c_str(), vh::hex(s.data(), s.size()).c_str());
  }
  vh::outcome(a.rc ? "refused" : "accepted");
  vh::validated();
}

int main(int argc, char** argv) {
  load();
  vh::init(argc, argv);
  const bool T = vh::thorough();
  // (1) all field lists, configurations, contents
  for (auto& c : all_configs({3, 4, 5}, false))
    for (int first = 0; first < 12; first++)
      vh::run_case_l([&] { return vh::fmt("layouts/%s/%d", c.str().c_str(), first); }, [&] {
        all_sequences(12, 0, T ? 2 : 1, [&](const std::vector<int>& t) {
          std::vector<int> k{first};
          k.insert(k.end(), t.begin(), t.end());
          for (int packing = 0; packing < 3; packing++)
            for (int style = 0; style < 3; style++)
              for (size_t n : {1, 7, 40}) {
                uint32_t step;
                auto f = layout(k, packing, step, 0.25f);
                cross(c, make_info(c, f, step, (uint32_t)n), make_cloud(n, f, step, style), "cloud");
              }
        });
        for (size_t n : {32768, 32769}) {
          if (!T && (n == 32768 || c.comp != CompressionOption::LZ4)) continue;
          uint32_t step;
          auto f = layout({first}, 1, step, 0.25f);
          cross(c, make_info(c, f, step, (uint32_t)n), make_cloud(n, f, step, 0), "large cloud");
        }
      });
  // (2) leading groups: sequences over an alphabet of ties, extremes and values that cannot be quantized
  for (int n = 1; n <= 5; n++)
    for (double res : {0.25, 0.001, 1.0, 3.0})
      vh::run_case_l([&] { return vh::fmt("group/%d/%g", n, res); }, [&] {
        const float inf = std::numeric_limits<float>::infinity();
        const float q = float(res);
        std::vector<float> al{0.f, -0.f, q, -q, 0.9f * q, -0.9f * q, 1.1f * q, 0.49f * q, 0.5f * q, -0.5f * q, 1.5f * q, -2.5f * q, 1e6f * q, -1e6f * q, 8388607.5f * q, 1e9f * q, -2e9f * q, 2147483520.f * q, 3e9f * q, -3e9f * q, inf, -inf, NAN, 1e38f, -1e38f, 1e-40f};
        uint32_t step;
        auto f = layout(std::vector<int>(n, 0), 0, step, q);
        for (auto& x : f) x.resolution = q;
        for (int v : {3, 4, 5})
          for (int pos = 0; pos < n; pos++)
            all_sequences(int(al.size()), 1, T ? 3 : 2, [&](const std::vector<int>& d) {
              Bytes cloud(d.size() * step, 0);
              for (size_t p = 0; p < d.size(); p++)
                for (int i = 0; i < n; i++) put<float>(cloud, p * step + f[i].offset, al[i == pos ? d[p] : (d[p] * 7 + i) % al.size()]);
              Config c{v, EncodingOptions::LOSSY, CompressionOption::NONE, false};
              cross(c, make_info(c, f, step, (uint32_t)d.size()), cloud, "group");
            });
      });
  // (3) damaged streams get the same verdict and the same points from every build
  for (auto& c : all_configs({2, 3, 4, 5}, false))
    for (size_t l = 0; l < 6; l++)
      vh::run_case_l([&] { return vh::fmt("damaged/%s/%zu", c.str().c_str(), l); }, [&] {
        static const std::vector<std::vector<int>> lay{{0, 0, 0}, {0, 0, 0, 0, 6}, {6, 9}, {1, 3}, {2, 8, 11}, {4, 5, 7}};
        uint32_t step;
        auto f = layout(lay[l], 0, step, 0.25f);
        auto info = make_info(c, f, step, 5);
        Bytes s = ref::header_binary(info), p = ref::encode_payload(info, make_cloud(5, f, step, int(l % 3)));
        const size_t h = s.size();
        s.insert(s.end(), p.begin(), p.end());
        for (size_t n = 0; n < s.size(); n++) same_verdict(Bytes(s.begin(), s.begin() + n), 1 << 16);
        for (size_t i = T ? 0 : h - std::min<size_t>(h, 4); i < s.size(); i++)
          for (int b : {0x00, 0x01, 0x7f, 0x80, 0xff, s[i] ^ 1, s[i] ^ 0x80}) {
            Bytes x = s;
            x[i] = uint8_t(b);
            same_verdict(x, 1 << 16);
          }
      });
  // (4) messages: profile, preprocessing, conversion and restoring
  for (int viz = 0; viz < 2; viz++)
    for (int n = 3; n <= 4; n++)
      for (double res : {0.25, 0.001, 1.0})
        vh::run_case_l([&] { return vh::fmt("messages/%d/%d/%g", viz, n, res); }, [&] {
          const float q = float(res);
          std::vector<float> al{0.f, 0.5f * q, -0.5f * q, 1.49f * q, -0.8f * q, 1e5f * q, -1048575.5f * q, 1048576.f * q, 1e9f * q, NAN, INFINITY};
          uint32_t step;
          std::vector<int> k(n, 0);
          k.push_back(2);
          k.push_back(6);
          auto f = layout(k, 0, step, q);
          for (auto& x : f) x.resolution.reset();
          all_sequences(int(al.size()), 1, T ? 4 : 3, [&](const std::vector<int>& d) {
            Bytes cloud = make_cloud(d.size(), f, step, 1);
            for (size_t p = 0; p < d.size(); p++)
              for (int i = 0; i < n; i++) put<float>(cloud, p * step + f[i].offset, al[i == int(p % n) ? d[p] : 0]);
            Bytes m = cdr::write(cdr::from_layout(d.size() % 2, "map", 1, (uint32_t)d.size(), f, step, cloud));
            std::vector<Res> plain;
            for (auto& w : g_v) {
              Res z = call(1 << 16, [&](uint8_t* o, size_t* sz, char* err) { return w.msg(m.data(), m.size(), 0, q, viz, o, sz, err); });
              if (z.rc) vh::fail("message", "the %s build cannot convert a message: %s", w.name.c_str(), z.err.c_str());
              Res first;
              for (auto& r : g_v) {
                Res b = call(1 << 16, [&](uint8_t* o, size_t* sz, char* err) { return r.msg(z.out.data(), z.out.size(), 1, 0, 0, o, sz, err); });
                if (b.rc) vh::fail("message", "the %s build cannot restore a message of the %s build: %s", r.name.c_str(), w.name.c_str(), b.err.c_str());
                if (&r == &g_v[0]) first = b;
                else if (!(b == first)) vh::fail("message", "a message of the %s build is restored differently by %s and %s", w.name.c_str(), g_v[0].name.c_str(), r.name.c_str());
              }
              vh::state_bytes(z.out.data(), z.out.size());
              vh::validated();
            }
          });
        });
  return vh::finish();
}
