// C13: the wire format.  Streams of versions 2..5 written by the independent reference codec are decoded by the library,
// and what the library writes (versions 3..5) is decoded by the reference codec.
#include "gen.hpp"
#include "ref.hpp"
using namespace cl;

static void cmp(const Config& c, const EncodingInfo& info, const Bytes& cloud, const Bytes& out, const std::string& what) {
  check_cloud(c, info, cloud, out, 0xCD, c.str() + " " + what);
}

// reference -> library
static void ref_to_lib(const Config& c, const EncodingInfo& info, const Bytes& cloud, const ref::EncChoice& ch, int header_form, const std::string& what) {
  Bytes payload = ref::encode_payload(info, cloud, ch);
  Bytes s = header_form == 0 ? ref::header_yaml(info) : ref::header_binary(info);
  s.insert(s.end(), payload.begin(), payload.end());
  Decoded d;
  try {
    d = dec_full(s);
  } catch (const vh::Fail&) {
    throw;
  } catch (const std::exception& e) {
    vh::fail("rejected", "%s %s: a legal version %d stream was rejected: %s", c.str().c_str(), what.c_str(), c.version, e.what());
  }
  if (d.info != info || d.info.version != info.version) vh::fail("header", "%s %s: description of the cloud was read differently", c.str().c_str(), what.c_str());
  cmp(c, info, cloud, d.data, "reference->library " + what);
  vh::state_bytes(s.data(), s.size());
  vh::validated();
}
// library -> reference
static void lib_to_ref(const Config& c, const EncodingInfo& info, const Bytes& cloud, const std::string& what) {
  Bytes enc = enc_fresh(info, cloud);
  // documented form of the header: magic, version, newline, text, NUL
  std::string magic = vh::fmt("CLOUDINI_V%02d\n", info.version);
  if (enc.size() < magic.size() || memcmp(enc.data(), magic.data(), magic.size())) vh::fail("magic", "%s: stream does not start with the magic of its version", c.str().c_str());
  size_t at = magic.size();
  while (at < enc.size() && enc[at]) at++;
  at++;
  Bytes out;
  try {
    out = ref::decode_payload(info, enc.data() + at, enc.size() - at);
  } catch (const ref::Err& e) {
    vh::fail("format", "%s %s: the reference decoder rejects what encode() wrote: %s", c.str().c_str(), what.c_str(), e.what());
  }
  cmp(c, info, cloud, out, "library->reference " + what);
  vh::state_bytes(enc.data(), enc.size());
  vh::validated();
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  const bool T = vh::thorough();
  const int K = (int)kKinds.size();

  // (1) every list of 1..2 (thorough: 3) field kinds, small clouds; both directions, both header forms, all coding modes
  for (auto& c : all_configs({2, 3, 4, 5}, false))
    for (int packing = 0; packing < 3; packing++)
      for (int first = 0; first < K; first++)
        vh::run_case_l([&] { return vh::fmt("small/%s/p%d/%s%s", c.str().c_str(), packing, tname(kKinds[first].t), kKinds[first].res ? "r" : ""); }, [&] {
          for (int nf = 1; nf <= (T ? 3 : 2); nf++)
            vh::odometer(std::vector<int>(std::max(0, nf - 1), K), [&](const std::vector<int>& rest) {
              std::vector<int> k{first};
              k.insert(k.end(), rest.begin(), rest.begin() + (nf - 1));
              uint32_t step;
              auto f = layout(k, packing, step);
              for (size_t n : {7, 1, 0}) {
                auto info = make_info(c, f, step, (uint32_t)n);
                for (int style = 0; style < (n ? 3 : 1); style++) {
                  Bytes cloud = make_cloud(n, f, step, style);
                  bool five = ref::v5(info);
                  for (int m = 0; m < (five ? 16 : 1); m++)
                    for (size_t split : {0, 2})
                      for (int gor = 0; gor < 2; gor++) {
                        if (split && !five) continue;
                        ref::EncChoice ch;
                        ch.mode = [&](size_t field, size_t) { return field & 1 ? m / 4 : m % 4; };
                        ch.split = split;
                        ch.gorilla = gor;
                        ref_to_lib(c, info, cloud, ch, (m + gor + style) & 1, vh::fmt("%s n=%zu style=%d modes=%d split=%zu gor=%d", lname(k).c_str(), n, style, m, split, gor));
                      }
                  if (c.version >= 3) lib_to_ref(c, info, cloud, vh::fmt("%s n=%zu style=%d", lname(k).c_str(), n, style));
                }
              }
              vh::beat();
            });
        });
  // (2) leading groups of floats followed by everything else
  for (auto& c : all_configs({2, 3, 4, 5}, false))
    for (int lead = 0; lead <= 6; lead++)
      vh::run_case_l([&] { return vh::fmt("lead/%s/%d", c.str().c_str(), lead); }, [&] {
        for (int a = 0; a < K; a++)
          for (int packing = 0; packing < 3; packing++) {
            std::vector<int> k(lead, 0);
            k.push_back(a);
            k.push_back((a * 5 + 3) % K);
            uint32_t step;
            auto f = layout(k, packing, step);
            auto info = make_info(c, f, step, 3, 3);
            for (int style = 0; style < 3; style++) {
              Bytes cloud = make_cloud(9, f, step, style);
              for (int m = 0; m < (ref::v5(info) ? 4 : 1); m++) {
                ref::EncChoice ch;
                ch.mode = [&](size_t, size_t) { return m; };
                for (int h = 0; h < 2; h++) ref_to_lib(c, info, cloud, ch, h, lname(k));
              }
              if (c.version >= 3) lib_to_ref(c, info, cloud, lname(k));
            }
            vh::beat();
          }
      });
  // (3) chunk boundaries; different modes in consecutive chunks
  std::vector<std::vector<int>> big{{0, 0, 0, 6}, {0, 0, 0, 0, 4, 10}, {3}, {1, 3, 5}, {6, 7, 8}, {2, 0, 9}};
  std::vector<size_t> sizes{32767, 32768, 32769, 65536, 65537};
  if (T) sizes.insert(sizes.end(), {4095, 4096, 4097, 98304, 98305, 131073});
  for (auto& c : all_configs({2, 3, 4, 5}, false))
    for (auto& k : big)
      for (size_t n : sizes)
        vh::run_case_l([&] { return vh::fmt("chunks/%s/%s/%zu", c.str().c_str(), lname(k).c_str(), n); }, [&] {
          uint32_t step;
          auto f = layout(k, int(n % 3), step);
          auto info = make_info(c, f, step, (uint32_t)n);
          for (int style = 0; style < (T ? 3 : 1); style++) {
            Bytes cloud = make_cloud(n, f, step, T ? style : 1 + int(n % 2));
            for (int m = 0; m < (T && ref::v5(info) ? 4 : 1); m++) {
              ref::EncChoice ch;
              ch.mode = [&](size_t field, size_t chunk) { return int(field + chunk + m) % 4; };
              ch.split = m == 2 ? 5 : 0;
              ref_to_lib(c, info, cloud, ch, m & 1, lname(k));
              vh::beat();
            }
            if (c.version >= 3) lib_to_ref(c, info, cloud, lname(k));
          }
        });
  return vh::finish();
}
