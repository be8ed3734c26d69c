// C27, third program: running out of memory while a bag is converted.
#include "bag.hpp"
#include "mcap_converter.hpp"
#include "oom.hpp"
using namespace bag;
using namespace oom;
struct Two {
  Bag in[2];
  Bytes want[2];
};
static void profile(McapConverter& c, int how) {
  if (how % 4 == 1) c.addProfile("xyz : 0.5; a long name of a field, which needs memory of its own : 0.25");
  if (how % 4 == 2) c.addProfile("intensity:remove;x:0.125");
}
static void convert(McapConverter& c, int how, const fs::path& out) {
  if (how < 4) c.encodePointClouds(out, 0.25f, CompressionOption(how % 3), how == 3);
  else c.decodePointClouds(out, CompressionOption(how % 3));
}
struct Convert : Op {
  const Two& t;
  int how;
  Scratch dir;
  McapConverter c;
  bool opened = false;
  bool configured = false;
  Convert(const Two& x, int h) : t(x), how(h) {
    for (int i = 0; i < 2; i++) spit(dir / vh::fmt("in%d.mcap", i), to_file(t.in[i]));
  }
  bool call(int w) override {
    const fs::path in = dir / vh::fmt("in%d.mcap", w), out = dir / "out.mcap";
    fs::remove(out);
    fs::path arg = in;
    std::exception_ptr e;
    {
      Armed a;
      try {
        if (!configured) profile(c, how), configured = true;
        opened = false;
        c.open(std::move(arg)), opened = true;
        convert(c, how, out);
      } catch (...) {
        e = std::current_exception();
      }
    }
    if (e && !opened && configured) {
      // nothing is open then; conversions are refused, or they convert what was asked for
      bool done = true;
      try {
        convert(c, how, out);
      } catch (const std::exception&) {
        done = false;
      }
      if (done && slurp(out) != t.want[w]) vh::fail("result", "open() failed, and the conversion after it silently produces a different bag");
    }
    if (e) std::rethrow_exception(e);
    if (slurp(out) != t.want[w]) vh::fail("result", "the converted bag differs from that of a conversion which had enough memory");
    return true;
  }
  void intact() override {
    for (int i = 0; i < 2; i++)
      if (slurp(dir / vh::fmt("in%d.mcap", i)) != to_file(t.in[i])) vh::fail("input", "the input changed");
  }
};
int main(int argc, char** argv) {
  vh::init(argc, argv);
  const bool T = vh::thorough();
  for (int how = 0; how < 8; how++)
    for (int variant = 0; variant < (T ? 6 : 2); variant++) {
      auto two = std::make_shared<Two>();
      auto id = vh::fmt("bags/%d/%d", how, variant);
      vh::run_case(id, [&] {
        Scratch d;
        two->in[0] = make_bag({kCloud, kText, kCompressed}, {0, 1, 2}, variant);
        two->in[1] = make_bag({kCompressed, kCloud2, kJson}, {1, 0, 2}, variant + 1);
        for (int i = 0; i < 2; i++) {
          McapConverter c;
          profile(c, how);
          spit(d / "in.mcap", to_file(two->in[i]));
          c.open(d / "in.mcap");
          convert(c, how, d / "out.mcap");
          two->want[i] = slurp(d / "out.mcap");
        }
        oom::explore(id, [&] { return std::make_unique<Convert>(*two, how); });
      });
    }
  return vh::finish();
}
