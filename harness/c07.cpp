// C07: encoding with the worker thread gives, under every interleaving, what encoding without it gives: same bytes,
// no data race, no deadlock, nothing touched after the call has returned.
#include "mc_enc.hpp"
using namespace mce;

namespace {
void scenario(const std::string& name, Config c, int lay, std::vector<Step> steps, mc::Options o, bool reuse_out = false) {
  Layout l = layout(lay);
  std::string label = name + " " + c.str() + " " + l.name + " [" + steps_str(steps) + "]" + vh::fmt(" pb%d sp%d", o.preemptions, o.spurious);
  vh::run_case(label, [&] {
    EncodingInfo thr = make_info(c, l.f, l.step, 7);
    auto prep = prepare(c, l, steps);
    auto r = mcx::explore(label, o, [&] {
      Bytes out;
      PointcloudEncoder e(thr);
      for (auto& p : prep) call(e, p, false, reuse_out ? &out : nullptr);
    });
    vh::outcome(vh::fmt("executions<=10^%d", (int)std::ceil(std::log10((double)r.executions + 1))));
  });
}
// two encoders used alternately by the same caller
void pair(const std::string& name, Config a, Config b, std::vector<Step> steps, mc::Options o) {
  Layout l = layout(0);
  std::string label = name + " " + a.str() + " " + b.str() + " [" + steps_str(steps) + "]" + vh::fmt(" pb%d", o.preemptions);
  vh::run_case(label, [&] {
    EncodingInfo ia = make_info(a, l.f, l.step, 7), ib = make_info(b, l.f, l.step, 9);
    auto pa = prepare(a, l, steps), pb = prepare(b, l, steps);
    for (auto& p : pb)
      if (p.st.api <= kHeader) {  // the header of b has another width
        Config c = b;
        c.threads = false;
        PointcloudEncoder e(make_info(c, l.f, l.step, 9));
        p.expected = p.st.api == kVector ? enc_vec(e, p.in) : enc_view(e, p.in, true);
      }
    mcx::explore(label, o, [&] {
      PointcloudEncoder ea(ia);
      PointcloudEncoder eb(ib);
      for (size_t i = 0; i < steps.size(); i++) {
        call(ea, pa[i], false);
        call(eb, pb[i], false);
      }
    });
  });
}
}  // namespace

int main(int argc, char** argv) {
  vh::init(argc, argv);
  const bool T = vh::thorough();
  std::vector<Config> cfgs;
  for (int v : {4, 5, 3})
    for (auto e : {EncodingOptions::LOSSY, EncodingOptions::LOSSLESS, EncodingOptions::NONE})
      for (auto c : {CompressionOption::LZ4, CompressionOption::ZSTD}) cfgs.push_back({v, e, c, true});
  auto N = [&](int chunks, size_t last) { return chunks == 0 ? size_t(0) : (chunks - 1) * CH + last; };
  mc::Options full;
  full.check_leaks = true;
  mc::Options spur = full, pb = full;
  spur.spurious = 1;
#ifndef CLOUDINI_VERIFICATION_POINTS_PER_CHUNK
  // real chunk size: fewer, preemption-bounded interleavings
  pb.preemptions = T ? 2 : 1;
  for (auto c : {CompressionOption::LZ4, CompressionOption::ZSTD})
    for (int v : {4, 5})
      for (int lay : {0, 2})
        for (int k : {1, 2, 3})
          for (int pat : {0, 1}) scenario("real", Config{v, EncodingOptions::LOSSY, c, true}, lay, {{N(k, 3), k == 2 ? kVector : kHeader, pat}}, pb);
#else
  pb.preemptions = T ? 4 : 2;
  int ci = 0;
  for (auto& c : cfgs) {
    const bool main_cfg = ci++ < 12;  // the scheduling code does not depend on the version: sequences on v4 and v5 only
    for (int api : {kVector, kHeader, kPayload})
      for (int k = 0; k <= 2; k++)
        for (int pat : {0, 1}) {
          if (k == 0 && pat) continue;
          scenario("single", c, (api + k) % 4, {{N(k, k > 1 ? 5 : CH), api, pat}}, k < 2 ? spur : full);
        }
    scenario("lifecycle", c, 0, {}, spur);
    if (!main_cfg && !T) continue;
    for (auto s : std::vector<std::vector<Step>>{
             {{N(1, 3), kVector, 1}, {N(1, CH), kVector, 0}},
             {{N(1, CH), kPayload, 1}, {0, kHeader, 0}, {N(1, 3), kVector, 2}},
             {{N(1, 4), kHeader, 0}, {N(1, 4), kWrongSize, 1}, {N(1, 5), kVector, 1}},
             {{N(1, 4), kSmallBuffer, 0}, {N(1, 4), kPayload, 1}, {N(1, 4), kSmallBuffer, 0}}})
      scenario("sequence", c, 1 + ci % 3, s, full, s[0].api == kVector);
    // longer histories, preemption bounded
    scenario("long", c, ci % 4, {{N(4, 2), kVector, 1}, {N(3, CH), kVector, 0}}, pb, true);
    scenario("long", c, ci % 4, {{N(5, 1), kHeader, 0}}, pb);
    scenario("long", c, 1 + ci % 3, {{N(2, 2), kPayload, 2}, {N(2, 2), kWrongSize, 1}, {N(3, 1), kVector, 1}, {0, kVector, 0}, {N(2, 8), kHeader, 0}}, pb);
    if (T) {
      scenario("single", c, 0, {{N(3, 5), kVector, 1}}, full);
      scenario("single", c, 0, {{N(2, 5), kVector, 1}}, spur);
      scenario("sequence", c, 0, {{N(2, 1), kHeader, 0}, {N(1, 4), kVector, 1}}, full);
    }
  }
  for (auto ca : {CompressionOption::LZ4, CompressionOption::ZSTD})
    for (auto cb : {CompressionOption::LZ4, CompressionOption::ZSTD})
      for (int va : {4, 5}) {
        Config a{va, EncodingOptions::LOSSY, ca, true}, b{9 - va, EncodingOptions::LOSSY, cb, true};
        mc::Options o;
        o.preemptions = T ? 3 : 1;
        pair("pair", a, b, {{N(2, 3), kVector, 1}, {N(1, 3), kHeader, 0}}, o);
        pair("pair", a, b, {{N(3, 1), kPayload, 0}}, o);
      }
#endif
  return vh::finish();
}
