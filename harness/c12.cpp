// C12: a stream that was cut, lacks or repeats a chunk, or declares more points than it holds never decodes successfully.
#include "gen.hpp"
#include "ref.hpp"
using namespace cl;

static PointcloudDecoder* g_dec;

// returns true if the library returned normally
static bool accepts(const EncodingInfo& info, const uint8_t* p, size_t n) {
  vh::transition();
  try {
    // exact-size copy: reading past the end is caught by the sanitizer of the asan build
    std::unique_ptr<uint8_t[]> copy(new uint8_t[n]);
    memcpy(copy.get(), p, n);
    dec_payload(info, copy.get(), n, 0xCD, g_dec);
  } catch (const vh::Fail&) {
    throw;
  } catch (const std::exception&) {
    vh::outcome("rejected");
    return false;
  }
  return true;
}
// The reference decoder is strict; a mutated stream it accepts is legal (it may describe another cloud).
static bool legal(const EncodingInfo& info, const Bytes& s, Bytes* out = nullptr) {
  try {
    Bytes o = ref::decode_payload(info, s.data(), s.size());
    if (out) *out = o;
    return true;
  } catch (const ref::Err&) {
    return false;
  }
}
static void must_reject(const Config& c, const EncodingInfo& info, const Bytes& s, const std::string& what) {
  if (legal(info, s)) {
    vh::outcome("still-legal");
    return;
  }
  if (accepts(info, s.data(), s.size()))
    vh::fail("accepted", "%s: %s (%zu bytes, %u x %u points declared) was decoded without an error", c.str().c_str(), what.c_str(), s.size(), info.width, info.height);
  vh::validated();
}

static void explore(const Config& c, const std::vector<PointField>& f, uint32_t step, const Bytes& cloud, bool all_cuts, const ref::EncChoice* choice) {
  size_t n = cloud.size() / step;
  auto info = make_info(c, f, step, (uint32_t)n);
  Bytes payload;
  if (choice) payload = ref::encode_payload(info, cloud, *choice);
  else {
    PointcloudEncoder e(info);
    payload = enc_view(e, cloud, false);
  }
  if (!accepts(info, payload.data(), payload.size())) vh::fail("sound", "%s: the unmodified stream was rejected", c.str().c_str());
  vh::state_bytes(payload.data(), payload.size());
  auto chunks = ref::split_chunks(payload);
  std::set<size_t> cuts;
  if (all_cuts)
    for (size_t k = 0; k < payload.size(); k++) cuts.insert(k);
  else {
    size_t at = 0;
    for (auto& ch : chunks) {
      for (size_t d : {0, 1, 2, 3, 4, 5, 12}) {
        cuts.insert(at + d);
        cuts.insert(at + 4 + ch.size() - std::min(ch.size(), d));
      }
      cuts.insert(at + 4 + ch.size() / 2);
      at += 4 + ch.size();
    }
  }
  // 1. cut anywhere
  for (size_t k : cuts)
    if (k < payload.size()) {
      Bytes s(payload.begin(), payload.begin() + k);
      if (legal(info, s)) vh::fail("oracle", "reference decoder accepts a truncated stream");
      must_reject(c, info, s, vh::fmt("stream cut to %zu of %zu bytes", k, payload.size()));
    }
  // 2. chunks removed, repeated, added
  for (size_t k = 0; k < chunks.size(); k++) {
    auto x = chunks;
    x.erase(x.begin() + k);
    must_reject(c, info, ref::join_chunks(x), vh::fmt("chunk %zu removed", k));
    x = chunks;
    x.insert(x.begin() + k, chunks[k]);
    must_reject(c, info, ref::join_chunks(x), vh::fmt("chunk %zu repeated", k));
    x = chunks;
    x.push_back(chunks[k]);
    must_reject(c, info, ref::join_chunks(x), vh::fmt("chunk %zu appended again", k));
    x = chunks;
    x[k].clear();
    must_reject(c, info, ref::join_chunks(x), vh::fmt("chunk %zu emptied", k));
    // 3. cut inside a chunk whose declared size matches the cut (complete container, incomplete content)
    Bytes st = ref::decompress(c.comp, chunks[k].data(), chunks[k].size(), ref::stage1_cap(info, ref::kChunk));
    for (size_t m = 0; m < st.size(); m++) {
      if (!all_cuts && m > 20 && st.size() - m > 20) continue;
      x = chunks;
      x[k] = ref::compress(c.comp, Bytes(st.begin(), st.begin() + m));
      must_reject(c, info, ref::join_chunks(x), vh::fmt("content of chunk %zu cut to %zu of %zu bytes", k, m, st.size()));
    }
    if (c.comp != CompressionOption::NONE)
      for (size_t m = 0; m < chunks[k].size(); m++) {
        if (!all_cuts && m > 20 && chunks[k].size() - m > 20) continue;
        x = chunks;
        x[k].resize(m);
        must_reject(c, info, ref::join_chunks(x), vh::fmt("compressed block %zu cut to %zu bytes", k, m));
      }
  }
  {
    auto x = chunks;
    x.push_back({});
    must_reject(c, info, ref::join_chunks(x), "empty chunk appended");
  }
  for (size_t k = 1; k <= 9; k++)
    for (uint8_t b : {0x00, 0x01, 0xff}) {
      Bytes s = payload;
      s.insert(s.end(), k, b);
      must_reject(c, info, s, vh::fmt("%zu bytes 0x%02x appended to the stream", k, b));
    }
  // 4. other dimensions: more points than the data holds
  for (size_t d : {1, 2, 7, 8, 9, 16, 17, all_cuts ? 1000 : 32768, all_cuts ? 1001 : 100000}) {
    auto i2 = info;
    i2.width = uint32_t(n + d);
    must_reject(c, i2, payload, vh::fmt("%zu points declared more than encoded", d));
  }
  {
    auto i2 = info;
    i2.height = 2;
    if (n) must_reject(c, i2, payload, "height doubled");
  }
  // fewer points than chunks: a chunk too many
  for (size_t m = 0; m + 1 <= chunks.size(); m++) {
    auto i2 = info;
    i2.width = uint32_t(m * ref::kChunk);
    must_reject(c, i2, payload, vh::fmt("only %u points declared for %zu chunks", i2.width, chunks.size()));
  }
  // adaptive integer columns: any other number of points is detected
  if (ref::v5(info) && n) {
    for (size_t m = 0; m < n; m++) {
      if (!all_cuts && m > 5 && n - m > 5 && m % ref::kChunk > 1) continue;
      auto i2 = info;
      i2.width = uint32_t(m);
      must_reject(c, i2, payload, vh::fmt("%zu of %zu points declared", m, n));
    }
    for (size_t k = 0; k < chunks.size(); k++)
      for (size_t e = 1; e <= 3; e++) {
        auto x = chunks;
        Bytes st = ref::decompress(c.comp, chunks[k].data(), chunks[k].size(), ref::stage1_cap(info, ref::kChunk));
        st.insert(st.end(), e, 0);
        x[k] = ref::compress(c.comp, st);
        must_reject(c, info, ref::join_chunks(x), vh::fmt("%zu bytes appended to the content of chunk %zu", e, k));
      }
  }
}

// the complete stream, header included: cut everywhere
static void full_stream(const Config& c, const std::vector<PointField>& f, uint32_t step, const Bytes& cloud) {
  size_t n = cloud.size() / step;
  auto info = make_info(c, f, step, (uint32_t)n);
  Bytes payload;
  {
    PointcloudEncoder e(info);
    payload = enc_view(e, cloud, false);
  }
  for (int form = 0; form < 2; form++) {
    Bytes s;
    EncodeHeader(info, s, form ? HeaderEncoding::BINARY : HeaderEncoding::YAML);
    s.insert(s.end(), payload.begin(), payload.end());
    for (size_t k = 0; k < s.size(); k++) {
      Bytes cut(s.begin(), s.begin() + k);
      cut.shrink_to_fit();
      vh::transition();
      bool ok = false;
      try {
        ConstBufferView v(cut.data(), cut.size());
        auto i2 = DecodeHeader(v);
        Bytes out;
        if (uint64_t(i2.width) * i2.height * i2.point_step > 1000000) vh::fail("header", "cut header gives absurd dimensions");
        PointcloudDecoder().decode(i2, v, out);
        ok = true;
      } catch (const vh::Fail&) {
        throw;
      } catch (const std::exception&) {
      }
      if (ok) vh::fail("accepted", "%s: complete %s stream cut to %zu of %zu bytes was decoded without an error", c.str().c_str(), form ? "binary" : "yaml", k, s.size());
      vh::validated();
    }
  }
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  g_dec = new PointcloudDecoder();
  const bool T = vh::thorough();
  const int K = (int)kKinds.size();
#ifdef CLOUDINI_VERIFICATION_POINTS_PER_CHUNK
  // chunks of 8 points: everything exhaustively
  std::vector<std::vector<int>> lay;
  for (int a = 0; a < K; a++) lay.push_back({a});
  for (int a = 0; a < K; a++) lay.push_back({a, (a * 7 + 5) % K});
  if (T)
    for (int a = 0; a < K; a++)
      for (int b = 0; b < K; b++) lay.push_back({a, b});
  for (int a = 0; a < K; a++) lay.push_back({0, 0, 0, a}), lay.push_back({0, 0, 0, 0, a});
  lay.push_back({0, 0});
  lay.push_back({0, 0, 0});
  lay.push_back({0, 0, 0, 0, 0});
  std::vector<size_t> sizes{1, 8, 9, 17};
  if (T) sizes = {1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 25};
  for (auto& c : all_configs({3, 4, 5}, false))
    for (auto& k : lay)
      vh::run_case_l([&] { return vh::fmt("cuts/%s/%s", c.str().c_str(), lname(k).c_str()); }, [&] {
        uint32_t step;
        for (size_t n : sizes) {
          auto f = layout(k, int(n % 3), step);
          for (int style = 0; style < 3; style++) {
            if (!T && style == 2 && n != 9) continue;
            Bytes cloud = make_cloud(n, f, step, style);
            auto info = make_info(c, f, step, (uint32_t)n);
            explore(c, f, step, cloud, true, nullptr);
            if (ref::v5(info))
              for (int m = 0; m < 4; m++) {
                ref::EncChoice ch;
                ch.mode = [&](size_t, size_t) { return m; };
                explore(c, f, step, cloud, true, &ch);
              }
            vh::beat();
          }
        }
        explore(c, layout(k, 0, step), step, {}, true, nullptr);
        auto f = layout(k, 0, step);
        full_stream(c, f, step, make_cloud(9, f, step, 1));
      });
#else
  std::vector<std::vector<int>> lay{{0, 0, 0, 6}, {0, 0, 0, 0, 4, 10}, {3}, {1, 3, 5}, {6, 7, 8}, {2, 0, 9}};
  std::vector<size_t> sizes{32767, 32768, 32769, 65537};
  if (T) sizes.insert(sizes.end(), {4096, 4097, 65536, 98305});
  for (auto& c : all_configs({3, 4, 5}, false))
    for (auto& k : lay)
      for (size_t n : sizes)
        vh::run_case_l([&] { return vh::fmt("chunks/%s/%s/%zu", c.str().c_str(), lname(k).c_str(), n); }, [&] {
          uint32_t step;
          auto f = layout(k, int(n % 3), step);
          Bytes cloud = make_cloud(n, f, step, 1);
          explore(c, f, step, cloud, false, nullptr);
        });
#endif
  return vh::finish();
}
