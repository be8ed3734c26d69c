// C08: an allocation, compression or thread-creation failure at any point, under any interleaving: the call throws (or
// completes correctly), nothing hangs, leaks or keeps touching the caller's memory, and the encoder stays usable.
#include "mc_enc.hpp"
using namespace mce;

namespace {
void scenario(Config c, int lay, std::vector<Step> steps, mc::Options o) {
  Layout l = layout(lay);
  std::string label = "faults " + c.str() + " " + l.name + " [" + steps_str(steps) + "]" + vh::fmt(" pb%d sp%d f%d kinds%u", o.preemptions, o.spurious, o.faults, o.fault_kinds);
  vh::run_case(label, [&] {
    EncodingInfo thr = make_info(c, l.f, l.step, 7);
    auto prep = prepare(c, l, steps);
    Step last{5, kHeader, 1};
    auto after = prepare(c, l, {last, {0, kVector, 0}});
    uint64_t thrown = 0, survived = 0;
    auto r = mcx::explore(label, o, [&] {
      std::unique_ptr<PointcloudEncoder> e;
      mc::arm(true);
      try {
        e = std::make_unique<PointcloudEncoder>(thr);
      } catch (const std::exception&) {
        mc::arm(false);
        if (!mc::faults_so_far()) throw;
        thrown++;
        return;
      }
      mc::arm(false);
      for (auto& p : prep) {
        int f0 = mc::faults_so_far();
        bool ok;
        try {
          ok = call(*e, p, true);
        } catch (...) {
          mc::arm(false);
          throw;
        }
        if (!ok && mc::faults_so_far() == f0) vh::fail("stuck-failure", "encode() threw although nothing failed during this call");
        if (!ok) thrown++;
      }
      // whatever happened, the encoder must work again
      for (auto& p : after) {
        Prepared q = p;
        Bytes in = q.in, out;
        try {
          if (q.st.api == kVector) e->encode(ConstBufferView(in.data(), in.size()), out);
          else {
            out.resize(MaxCompressedSize(thr, q.st.pts, true));
            BufferView v(out.data(), out.size());
            out.resize(e->encode(ConstBufferView(in.data(), in.size()), v, true));
          }
        } catch (const std::exception& x) {
          vh::fail("not-usable", "the encoder does not work after a failed call: %s", x.what());
        }
        mc::write(out.data(), out.size());
        if (out != q.expected) vh::fail("after-output", "wrong output after a failed call");
      }
      survived++;
    });
    vh::outcome("call threw", thrown);
    vh::outcome("encoder used again", survived);
    (void)r;
  });
}
// decoder and single-threaded encoder: allocation failures at every allocation
void decoder(Config c, int lay, size_t pts) {
  Layout l = layout(lay);
  std::string label = "decoder-faults " + c.str() + " " + l.name + vh::fmt(" %zu pts", pts);
  vh::run_case(label, [&] {
    EncodingInfo seq = make_info(c, l.f, l.step, (uint32_t)pts);
    Bytes in = cloud(pts, 2, l.step);
    PointcloudEncoder e(seq);
    Bytes enc = enc_vec(e, in);
    Bytes ref = dec_full(enc).data;
    mc::Options o;
    o.faults = 2;
    o.check_leaks = true;
    o.fault_kinds = mc::kAlloc;
    mcx::explore(label, o, [&] {
      PointcloudDecoder dec;
      for (int k = 0; k < 2; k++) {
        Bytes out(pts * l.step, 0xCD);
        EncodingInfo info;
        bool ok = true;
        int f0 = mc::faults_so_far();
        mc::arm(true);
        try {
          ConstBufferView v(enc.data(), enc.size());
          info = DecodeHeader(v);
          dec.decode(info, v, BufferView(out.data(), out.size()));
        } catch (const std::exception&) {
          ok = false;
        }
        mc::arm(false);
        if (!ok && mc::faults_so_far() == f0) vh::fail("dec-stuck", "decode() threw although nothing failed");
        if (ok && out != ref) vh::fail("dec-output", "wrong output of decode()");
      }
      Bytes out(pts * l.step, 0xCD);
      ConstBufferView v(enc.data(), enc.size());
      EncodingInfo info = DecodeHeader(v);
      dec.decode(info, v, BufferView(out.data(), out.size()));
      if (out != ref) vh::fail("dec-after", "wrong output of decode() after a failed call");
    });
  });
}
}  // namespace

int main(int argc, char** argv) {
  vh::init(argc, argv);
  const bool T = vh::thorough();
  auto N = [&](int chunks, size_t last) { return chunks == 0 ? size_t(0) : (chunks - 1) * CH + last; };
  auto opt = [](int pb, int sp, int f, unsigned k) {
    mc::Options o;
    o.check_leaks = true, o.preemptions = pb, o.spurious = sp, o.faults = f, o.fault_kinds = k;
    return o;
  };
  const unsigned CT = mc::kCompress | mc::kThread, ALL = CT | mc::kAlloc;
  for (int v : {4, 5})
    for (auto en : {EncodingOptions::LOSSY, EncodingOptions::NONE})
      for (auto co : {CompressionOption::LZ4, CompressionOption::ZSTD}) {
        Config c{v, en, co, true};
        // one failing resource anywhere, every interleaving
        scenario(c, 0, {{N(1, 3), kVector, 1}}, opt(-1, 0, 1, ALL));
        scenario(c, 2, {{N(2, 3), kHeader, 1}}, opt(-1, 0, 1, CT));
        scenario(c, 1, {{N(2, 3), kVector, 1}}, opt(2, 0, 1, ALL));
        // a failure, then a second one in the next call (the worker has to be restarted)
        scenario(c, 0, {{N(1, 3), kHeader, 0}, {N(1, 4), kPayload, 1}}, opt(T ? -1 : 3, 0, 2, CT));
        scenario(c, 3, {{N(1, 3), kHeader, 0}, {N(1, 2), kVector, 1}, {N(1, 5), kPayload, 1}}, opt(T ? 3 : 1, 0, 3, CT));
        scenario(c, 0, {{N(3, 3), kVector, 0}, {N(2, 2), kVector, 1}}, opt(T ? 3 : 1, 0, 2, CT));
        scenario(c, 0, {{N(2, 3), kVector, 0}, {N(2, 2), kVector, 1}}, opt(T ? 2 : 1, 0, 2, ALL));
        scenario(c, 0, {{N(1, 3), kHeader, 0}, {N(1, 3), kSmallBuffer, 0}, {N(1, 4), kPayload, 1}}, opt(T ? -1 : 2, 0, 1, CT));
        if (T) {
          scenario(c, 0, {{N(1, 3), kVector, 1}}, opt(-1, 1, 1, ALL));
          scenario(c, 0, {{N(3, 3), kPayload, 1}}, opt(-1, 0, 1, CT));
        }
      }
  // without the worker thread
  for (int v : {3, 4, 5})
    for (auto en : {EncodingOptions::LOSSY, EncodingOptions::LOSSLESS, EncodingOptions::NONE})
      for (auto co : {CompressionOption::NONE, CompressionOption::LZ4, CompressionOption::ZSTD}) {
        Config c{v, en, co, false};
        for (int lay = 0; lay < 4; lay++) {
          scenario(c, lay, {{N(2, 3), kVector, 1}, {N(3, 2), kHeader, 2}}, opt(-1, 0, 2, mc::kCompress | mc::kAlloc));
          decoder(c, lay, N(1, 5));
          decoder(c, lay, N(3, 2));
        }
      }
  return vh::finish();
}
