// C05 with chunks of a few points (hook): long histories of chunks through the adaptive coding of an integer column.
#include "ref.hpp"
using namespace cl;
static const FT kT[] = {FT::INT16, FT::UINT16, FT::INT32, FT::UINT32, FT::INT64, FT::UINT64};
static const size_t CH = ref::kChunk;
static const int P = 8;
static uint64_t mix(uint64_t h) {
  h *= 0x9E3779B97F4A7C15ull;
  h ^= h >> 29;
  h *= 0xBF58476D1CE4E5B9ull;
  return h ^ (h >> 32);
}
// value number k of chunk number ch
static uint64_t pat(int p, size_t ch, size_t k, int bits) {
  const uint64_t top = 1ull << (bits - 1);
  switch (p) {
    case 0: return 7;                                  // the same constant in every chunk
    case 1: return ch * 1000 + 5;                      // another constant in every chunk
    case 2: return (ch * CH + k) * 3;                  // a ramp through all chunks
    case 3: return mix(ch * CH + k);                   // unrelated
    case 4: return k & 1 ? top : top - 1;              // two extremes
    case 5: return mix(k % 3 + 1 + ch % 2 * 3);        // a few values, alternating sets
    case 6: return ch * 77 + (k < CH / 2 ? 1 : ~0ull); // two runs
    default: return k == 0 ? ~0ull : k + ch;           // outlier, then a ramp
  }
}
static Bytes cloud(FT t, const std::vector<int>& seq, size_t last) {
  const int sz = size_of(t);
  Bytes b;
  for (size_t c = 0; c < seq.size(); c++)
    for (size_t k = 0; k < (c + 1 == seq.size() ? last : CH); k++) {
      const uint64_t v = pat(seq[c], c, k, 8 * sz);
      b.insert(b.end(), (const uint8_t*)&v, (const uint8_t*)&v + sz);
    }
  return b;
}
int main(int argc, char** argv) {
  vh::init(argc, argv);
  const bool T = vh::thorough();
  // (1) every sequence of chunk patterns; the reference decoder must agree
  for (FT t : kT)
    for (int first = 0; first < P; first++)
      for (auto comp : {CompressionOption::NONE, CompressionOption::LZ4})
        vh::run_case_l([&] { return vh::fmt("chunks/%s/%s/%d", cname(comp), tname(t), first); }, [&] {
          Config c{5, EncodingOptions::LOSSY, comp, false};
          Driver d(c, {{"i", 0, t, std::nullopt}}, size_of(t));
          uint64_t n = 0;
          all_sequences(P, 1, (T ? 6 : 5) - (comp != CompressionOption::NONE ? 1 : 0), [&](const std::vector<int>& s) {
            if (s[0] != first) return;
            for (size_t last : {CH, CH - 3, size_t(1)}) {
              if (s.size() >= 5 && last != CH && !T) continue;
              const Bytes b = cloud(t, s, last);
              const Bytes payload = d.roundtrip(b, "chunks");
              if (comp == CompressionOption::NONE) {
                Bytes out;
                try {
                  out = ref::decode_payload(d.dinfo(b.size() / size_of(t)), payload.data(), payload.size());
                } catch (const std::exception& e) {
                  vh::fail("format", "the reference decoder rejects the stream: %s", e.what());
                }
                if (out != b) vh::fail("format", "the reference decoder reads other values");
              }
            }
            if (++n % 256 == 0) vh::beat();
          });
        });
  // (2) very long histories: counters of chunks, generations of tables
  for (FT t : kT)
    for (int a = 0; a < P; a++)
      vh::run_case_l([&] { return vh::fmt("long/%s/%d", tname(t), a); }, [&] {
        Config c{5, EncodingOptions::LOSSY, CompressionOption::NONE, false};
        Driver d(c, {{"i", 0, t, std::nullopt}}, size_of(t));
        for (int b = 0; b < P; b++) {
          std::vector<int> s(1, a);
          for (size_t k = 1; k < 1100; k++) s.push_back(k % 5 ? b : (b + int(k / 5)) % P);
          d.roundtrip(cloud(t, s, CH), "long");
          vh::beat();
        }
        if (a % 2 == 1 || T) {
          d.roundtrip(cloud(t, std::vector<int>(70000, a), CH), "65536 chunks");
          vh::beat();
        }
      });
  // (3) the same few values in every chunk, then other values in chunk number n: what older chunks left must not show.
  // The point counts are all n in a range around each power of two up to 2^16 (2^9 in quick, and a few at 2^16).
  for (FT t : kT)
    for (int a : {0, 1, 3, 4, 5})
      for (int quiet : {0, 4})
        vh::run_case_l([&] { return vh::fmt("novel/%s/%d/%d", tname(t), a, quiet); }, [&] {
          Config c{5, EncodingOptions::LOSSY, CompressionOption::NONE, false};
          Driver d(c, {{"i", 0, t, std::nullopt}}, size_of(t));
          std::vector<size_t> at;
          for (size_t n = 1; n <= 520; n++) at.push_back(n);
          if (T)
            for (size_t n = 1014; n <= 1034; n++) at.push_back(n);
          if (T || (a == 4 && quiet == 0 && t == FT::UINT32))
            for (size_t n = 65530; n <= 65540; n++) at.push_back(n);
          for (size_t n : at)
            for (int b : {3, 5}) {
              if (b == 5 && n > 600 && !T) continue;
              std::vector<int> s(n, quiet);
              s[0] = a;
              s.push_back(b);
              s.push_back(quiet);
              d.roundtrip(cloud(t, s, CH), "novel");
              if (n % 128 == 0 || n > 60000) vh::beat();
            }
        });
  return vh::finish();
}
