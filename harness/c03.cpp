// C03: lossless floats are restored bit for bit.
#include "cloud.hpp"
using namespace cl;

static std::vector<uint64_t> alphabet(FT t) {
  if (t == FT::FLOAT32)
    return {0, 0x3f800000, 0xbf800000, 0x7fc00000, 0x7f800001, 0xff800000, 1, 0x80000000, 0xffffffff};
  return {0, 0x3ff0000000000000, 0xbff0000000000001, 0x7ff8000000000000, 0x7ff0000000000001, 0xfff0000000000000, 1, 0x8000000000000000, ~0ull};
}
int main(int argc, char** argv) {
  vh::init(argc, argv);
  const bool T = vh::thorough();
  struct Mode { EncodingOptions o; bool res; };
  // every mode in which the format promises lossless floats
  std::vector<Mode> modes{{EncodingOptions::LOSSLESS, false}, {EncodingOptions::LOSSLESS, true}, {EncodingOptions::NONE, false}, {EncodingOptions::LOSSY, false}};
  for (int ver : {3, 4, 5})
    for (auto comp : {CompressionOption::NONE, CompressionOption::LZ4, CompressionOption::ZSTD})
      for (auto m : modes)
        for (FT t : {FT::FLOAT32, FT::FLOAT64}) {
          Config c{ver, m.o, comp, false};
          std::optional<float> res;
          if (m.res) res = 0.01f;
          std::string tag = c.str() + "/" + tname(t) + (m.res ? "/res" : "");
          const int sz = size_of(t), bits = 8 * sz;
          vh::run_case("seq/" + tag, [&] {
            Driver d(c, {{"f", 0, t, res}}, sz);
            auto A = alphabet(t);
            all_sequences((int)A.size(), 0, comp == CompressionOption::NONE ? (T ? 6 : 5) : 3, [&](const std::vector<int>& s) {
              Bytes b(s.size() * sz);
              for (size_t i = 0; i < s.size(); i++) memcpy(b.data() + i * sz, &A[s[i]], sz);
              d.roundtrip(b, "seq");
              vh::beat();
            });
          });
          // XOR windows: consecutive values whose XOR has exactly `l` leading and `t` trailing zero bits, all pairs of windows (l,t)->(l',t')
          for (int fillkind = 0; fillkind < 2; fillkind++)
            vh::run_case(vh::fmt("windows%d/", fillkind) + tag, [&] {
              std::vector<uint64_t> w{0};
              std::vector<int> edge;
              for (int i = 0; i < bits; i++)
                if (T || (bits == 32 && comp == CompressionOption::NONE) || i < 2 || i > bits - 3 || i % 8 == 7 || i % 8 == 0 || (i >= 29 && i <= 34)) edge.push_back(i);
              for (int l : edge)
                for (int tr : edge)
                  if (l + tr < bits) {
                    uint64_t x = 1ull << tr | 1ull << (bits - 1 - l);
                    if (fillkind)  // all bits of the window set, else only its two ends
                      for (int k = tr; k < bits - l; k++) x |= 1ull << k;
                    w.push_back(x);
                  }
              auto walk = all_pairs_walk((int)w.size());
              vh::extra("window_transitions", walk.size());
              Driver d(c, {{"f", 0, t, res}}, sz);
              Bytes b;
              uint64_t v = 0x123456789abcdef0ull;
              auto add = [&] {
                size_t at = b.size();
                b.resize(at + sz);
                memcpy(b.data() + at, &v, sz);
              };
              size_t since = 0;
              for (size_t i = 0; i < walk.size(); i++) {
                v ^= w[walk[i]];
                add();
                if (++since >= 200000 || i + 1 == walk.size()) {
                  d.roundtrip(b, "windows");
                  b.clear();
                  vh::beat();
                  // start the next cloud so that the current window is established again
                  since = 0;
                  v ^= w[walk[i]];
                  add();
                  v ^= w[walk[i]];
                  add();
                }
              }
            });
        }
  return vh::finish();
}
