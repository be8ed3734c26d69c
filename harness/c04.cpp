// C04: whole clouds: every field of every point, in order, for every layout and every cloud size; padding bytes are not touched.
#include "gen.hpp"
using namespace cl;

// complete public path: growing-vector encode with header, DecodeHeader, decode
static void full_path(const Config& c, const std::vector<PointField>& f, uint32_t step, const Bytes& cloud, uint32_t w, uint32_t h) {
  auto info = make_info(c, f, step, w, h);
  Bytes enc = enc_fresh(info, cloud);
  Decoded d = dec_full(enc, 0x3C);
  if (d.info != info || d.info.version != info.version) vh::fail("header", "decoded header differs from the encoder's");
  check_cloud(c, info, cloud, d.data, 0x3C, c.str());
  {  // same through the vector overload of decode()
    ConstBufferView v(enc.data(), enc.size());
    auto i2 = DecodeHeader(v);
    Bytes out;
    PointcloudDecoder().decode(i2, v, out);
    check_cloud(c, info, cloud, out, 0, c.str() + " (vector overload)");
  }
  vh::state_bytes(enc.data(), enc.size());
  vh::validated();
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  const bool T = vh::thorough();
  const int K = (int)kKinds.size();
  // (1) every ordered list of up to 3 fields (thorough: 4), tiny clouds of 0..3 points, both packings, every configuration
  for (auto& c : all_configs({3, 4, 5}, false))
    for (int packing = 0; packing < 3; packing++)
      for (int nf = 1; nf <= (T ? 4 : 3); nf++)
        for (int first = 0; first < K; first++)
          vh::run_case_l([&] { return vh::fmt("layouts/%s/p%d/%d/first=%s%s", c.str().c_str(), packing, nf, tname(kKinds[first].t), kKinds[first].res ? "r" : ""); }, [&] {
            vh::odometer(std::vector<int>(std::max(0, nf - 1), K), [&](const std::vector<int>& rest) {
              std::vector<int> k{first};
              k.insert(k.end(), rest.begin(), rest.begin() + (nf - 1));
              uint32_t step;
              auto f = layout(k, packing, step);
              Driver d(c, f, step);
              for (size_t n : {3, 1, 0}) d.roundtrip(make_cloud(n, f, step, int(n % 3)), lname(k).c_str());
              d.roundtrip(make_cloud(5, f, step, 2), lname(k).c_str());
              vh::beat();
            });
          });
  // (2) leading groups of float fields with resolution: lengths 0..6, followed by every kind
  for (auto& c : all_configs({3, 4, 5}, false))
    for (int lead = 0; lead <= 6; lead++)
      vh::run_case(vh::fmt("lead/%s/%d", c.str().c_str(), lead), [&] {
        for (int packing = 0; packing < 3; packing++)
          for (int a = 0; a < K; a++)
            for (int b = 0; b < K; b++) {
              std::vector<int> k(lead, 0);
              k.push_back(a);
              k.push_back(b);
              uint32_t step;
              auto f = layout(k, packing, step);
              Driver d(c, f, step);
              for (int st = 0; st < 3; st++) d.roundtrip(make_cloud(4, f, step, st), lname(k).c_str());
              vh::beat();
            }
      });
  // (3) cloud sizes around every chunk boundary, organized and unorganized, complete path including the header
  std::vector<std::vector<int>> big{{0, 0, 0}, {0, 0, 0, 0}, {0, 0, 0, 7}, {0, 0, 0, 0, 4, 10}, {3}, {1, 3, 5}, {6, 7, 8, 9, 10, 11}, {4}, {5, 2}, {2, 0, 9}};
  std::vector<size_t> sizes{0, 1, 2, 4095, 4096, 4097, 32767, 32768, 32769, 36864, 36865, 65535, 65536, 65537, 98304};
  if (T) sizes.insert(sizes.end(), {98303, 98305, 131072, 131073, 200000, 262143, 262145});
  for (auto& c : all_configs())
    for (auto& k : big)
      for (size_t n : sizes)
        vh::run_case_l([&] { return vh::fmt("size/%s/%s/%zu", c.str().c_str(), lname(k).c_str(), n); }, [&] {
          for (int packing = 0; packing < (T ? 3 : 1); packing++) {
            uint32_t step;
            int pk = T ? packing : int((n + k.size()) % 3);
            auto f = layout(k, pk, step);
            for (int style = 0; style < (T || n < 40000 ? 3 : 1); style++) {
              Bytes cloud = make_cloud(n, f, step, style);
              full_path(c, f, step, cloud, (uint32_t)n, 1);
              if (n % 2 == 0 && style == 0) full_path(c, f, step, cloud, uint32_t(n / 2), 2);
              vh::beat();
            }
          }
        });
  // (4) many fields: one kind or all kinds in turn; every 32-bit and 64-bit mask, every 8-bit counter overflows
  {
    auto wide = [](int nf, int kind, int rot, uint32_t& step) {  // kind < 0: all kinds, -2: integers only
      std::vector<PointField> f;
      step = rot % 3;
      for (int i = 0; i < nf; i++) {
        const Kind& kd = kKinds[kind >= 0 ? kind : kind == -1 ? (i + rot) % 12 : 6 + (i + rot) % 6];
        f.push_back({vh::fmt("f%d", i), step, kd.t, kd.res ? std::optional<float>(0.01f * (1 + i % 5)) : std::nullopt});
        step += size_of(kd.t) + (i % 7 == 3);
      }
      return f;
    };
    std::vector<int> nfs{5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 24, 25, 26, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 258, 300, 512, 513};
    if (T) nfs = [] {
      std::vector<int> v;
      for (int i = 5; i <= 300; i++) v.push_back(i);
      for (int i : {511, 512, 513, 1023, 1024, 1025, 4096, 4097}) v.push_back(i);
      return v;
    }();
    for (auto& c : all_configs({3, 4, 5}))
      for (int nf : nfs)
        vh::run_case_l([&] { return vh::fmt("many-fields/%s/%d", c.str().c_str(), nf); }, [&] {
          if (c.threads && nf > 66 && !T) return;
          for (int kind = -2; kind < K; kind++)
            for (int rot = 0; rot < (kind < 0 ? 12 : 1); rot++) {
              if (!T && rot && nf > 40 && rot != 5) continue;
              uint32_t step;
              auto f = wide(nf, kind, rot, step);
              Driver d(c, f, step);
              d.roundtrip(make_cloud(4, f, step, 0), "many fields");
              d.roundtrip(make_cloud(40, f, step, 2), "many fields");
              if (rot == 0 && (kind < 0 || kind == 0 || kind == 3 || kind == 9)) full_path(c, f, step, make_cloud(3, f, step, 1), 1, 3);
              if (!c.threads && kind < 0 && rot == 0 && nf <= 66 && (T || nf % 8 < 2)) d.roundtrip(make_cloud(4100, f, step, 1), "many fields, many points");
              vh::beat();
            }
        });
    // (5) few fields far apart: offsets and point sizes beyond 8 and 16 bits
    for (auto& c : all_configs({3, 4, 5}, false))
      for (uint32_t at : {100u, 127u, 128u, 255u, 256u, 257u, 4095u, 4096u, 32760u, 32767u, 32768u, 65528u, 65535u, 65536u, 65537u, 100003u})
        vh::run_case_l([&] { return vh::fmt("offsets/%s/%u", c.str().c_str(), at); }, [&] {
          for (int lead : {0, 3, 4})
            for (int a = 0; a < K; a++) {
              std::vector<PointField> f;
              // leading group around `at`, then a field beyond it, then one at the beginning of the point
              uint32_t o = lead ? at - 8 : at;
              for (int i = 0; i < lead; i++, o += 4) f.push_back({std::string(1, char('p' + i)), o, FT::FLOAT32, 0.01f});
              f.push_back({"a", o, kKinds[a].t, kKinds[a].res ? std::optional<float>(0.02f) : std::nullopt});
              o += size_of(kKinds[a].t);
              f.push_back({"b", 1, kKinds[(a + 5) % K].t, kKinds[(a + 5) % K].res ? std::optional<float>(0.02f) : std::nullopt});
              for (uint32_t pad : {0u, 3u}) {
                Driver d(c, f, o + pad);
                d.roundtrip(make_cloud(3, f, o + pad, 0), "far offsets");
                if (lead == 0) full_path(c, f, o + pad, make_cloud(2, f, o + pad, 1), 2, 1);
              }
              vh::beat();
            }
        });
    // (6) chunks of more than 2^24 bytes
    for (auto& c : all_configs({3, 4, 5}))
      for (int kind : {3, 10, 5})
        vh::run_case_l([&] { return vh::fmt("big-chunk/%s/%d", c.str().c_str(), kind); }, [&] {
          if (!T && (c.version == 3 || (c.threads && kind != 10) || (c.comp == CompressionOption::LZ4 && !c.threads))) return;
          uint32_t step;
          auto f = wide(kind == 5 ? 600 : 80, kind, 0, step);
          Bytes cloud = make_cloud(33000, f, step, 0);
          vh::beat();
          Driver d(c, f, step);
          const Bytes p = d.roundtrip(cloud, "big chunk");
          auto& w = vh::g().extra["largest_stream_bytes"];
          w = std::max<uint64_t>(w, p.size());
          vh::beat();
        });
  }
  // (7) long clouds of small points: dimensions and totals beyond 16 and 20 (thorough 24) bits
  {
    std::vector<std::pair<uint32_t, uint32_t>> wh{{70000, 15}, {15, 70000}, {1 << 20, 1}, {1, (1 << 20) + 1}, {1025, 1024}, {65536, 17}};
    if (T) wh.insert(wh.end(), {{(1 << 24) + 1, 1}, {65537, 257}, {3, 1 << 23}});
    for (auto& c : all_configs({3, 4, 5}))
      for (auto& d : wh)
        for (int kind : {5, 7, 0})
          vh::run_case_l([&] { return vh::fmt("long/%s/%ux%u/%d", c.str().c_str(), d.first, d.second, kind); }, [&] {
            if (!T && (c.version == 3 || (kind != 7 && c.threads) || (kind == 5 && d.first % 2) || (kind == 0 && d.first % 2 == 0))) return;
            uint32_t step;
            auto f = layout({kind}, 0, step);
            Bytes cloud = make_cloud(size_t(d.first) * d.second, f, step, kind == 0 ? 1 : 0);
            vh::beat();
            full_path(c, f, step, cloud, d.first, d.second);
            vh::beat();
          });
  }
  return vh::finish();
}
