// C01: integers are restored bit for bit, whatever the sequence of values.
#include "cloud.hpp"
using namespace cl;

static std::vector<uint64_t> small_alphabet(FT t) {
  const int n = size_of(t) * 8;
  const uint64_t mask = n == 64 ? ~0ull : (1ull << n) - 1;
  std::vector<uint64_t> v{0, 1, mask, 1ull << (n - 1), (1ull << (n - 1)) - 1, 64};
  if (vh::thorough()) v.push_back((uint64_t)-64 & mask), v.push_back(0x5A5A5A5A5A5A5A5Aull & mask);
  return v;
}
static std::vector<uint64_t> boundary_alphabet(FT t) {
  const int n = size_of(t) * 8;
  const uint64_t mask = n == 64 ? ~0ull : (1ull << n) - 1;
  std::set<uint64_t> s{0, mask};
  for (int k = 0; k < n; k++)
    for (int d = -1; d <= 1; d++) {
      s.insert(((1ull << k) + d) & mask);
      s.insert((0 - (1ull << k) + d) & mask);
    }
  return {s.begin(), s.end()};
}
static Bytes cloud_of(FT t, const std::vector<uint64_t>& v) {
  const int n = size_of(t);
  Bytes b(v.size() * n);
  for (size_t i = 0; i < v.size(); i++) memcpy(b.data() + i * n, &v[i], n);
  return b;
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  for (auto& c : all_configs())
    for (FT t : kIntTypes) {
      const auto A = small_alphabet(t);
      const int L = vh::thorough() ? 6 : 5;
      vh::run_case(vh::fmt("seq/%s/%s", c.str().c_str(), tname(t)), [&] {
        Driver d(c, {{"f", 0, t, std::nullopt}}, size_of(t));
        // the thread hand-over is explored separately (C07): shorter sequences are enough here
        all_sequences((int)A.size(), 0, c.threads ? L - 2 : L, [&](const std::vector<int>& s) {
          std::vector<uint64_t> v;
          for (int i : s) v.push_back(A[i]);
          d.roundtrip(cloud_of(t, v), tname(t));
          vh::beat();
        });
      });
      vh::run_case(vh::fmt("pairs/%s/%s", c.str().c_str(), tname(t)), [&] {
        // every ordered pair of boundary values as neighbours (every varint length change, every wrap-around delta)
        auto B = boundary_alphabet(t);
        auto w = all_pairs_walk((int)B.size());
        std::vector<uint64_t> v;
        for (int i : w) v.push_back(B[i]);
        vh::extra("neighbour_pairs", w.size());
        Driver d(c, {{"f", 0, t, std::nullopt}}, size_of(t));
        d.roundtrip(cloud_of(t, v), "pairs");
      });
      if (c.version == 5 && c.enc == EncodingOptions::LOSSY && size_of(t) > 1)
        for (int mode = 0; mode < 4; mode++)
          vh::run_case(vh::fmt("pairs-after/%d/%s/%s", mode, c.str().c_str(), tname(t)), [&] {
            // the same walk, after a prefix that favours one of the adaptive codings: irregular small steps, few values, constant runs, ramp
            auto B = boundary_alphabet(t);
            auto w = all_pairs_walk((int)B.size());
            std::vector<uint64_t> v;
            uint64_t x = 0, s = 88172645463325252ull;
            for (int i = 0; i < 4200; i++) {
              s ^= s << 13, s ^= s >> 7, s ^= s << 17;
              x = mode == 0 ? x + 1 + s % 3 : mode == 1 ? (s % 16) * 1000003 : mode == 2 ? (i / 60) * 12347ull : 5 + i * 2ull;
              v.push_back(x);
            }
            for (int i : w) v.push_back(B[i]);
            Driver d(c, {{"f", 0, t, std::nullopt}}, size_of(t));
            d.roundtrip(cloud_of(t, v), "pairs after a prefix");
          });
      if (size_of(t) <= 2)
        vh::run_case(vh::fmt("all/%s/%s", c.str().c_str(), tname(t)), [&] {
          // every value of the type, ascending, then zig-zag: every representable delta of both signs
          const uint32_t N = 1u << (8 * size_of(t));
          std::vector<uint64_t> v;
          for (uint32_t i = 0; i < N; i++) v.push_back(i);
          for (uint32_t i = 0; i < N; i++) v.push_back((i & 1) ? (N - 1 - i / 2) : i / 2);
          const uint32_t H = N / 2;
          for (uint32_t i = 0; i < N; i++) v.push_back(((i & 1) ? (N - 1 - i / 2) : i / 2) ^ H);
          Driver d(c, {{"f", 0, t, std::nullopt}}, size_of(t));
          d.roundtrip(cloud_of(t, v), "all");
        });
    }
  return vh::finish();
}
