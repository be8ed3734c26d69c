// C24: converting a bag changes the point clouds in the stated way and nothing else. The real converter runs on top of a
// stand-in for the MCAP library that reads and writes (uncompressed) MCAP files in a scratch directory.
#include "bag.hpp"
#include "mcap_converter.hpp"
using namespace bag;

static void run(McapConverter& c, const Job& j, const fs::path& out) {
  if (j.encode) c.encodePointClouds(out, j.resolution, j.comp, j.viz);
  else c.decodePointClouds(out, j.comp);
  vh::transition();
}
static void check_topics(const Bag& b, const McapConverter::TopicsMap& t) {
  std::map<std::string, std::set<std::string>> want;
  for (auto& [i, c] : b.channels)
    if (c.schema && (b.schemas.at(c.schema).name == kPlain || b.schemas.at(c.schema).name == kPacked)) want[c.topic].insert(b.schemas.at(c.schema).name);
  if (t.size() != want.size()) vh::fail("topics", "open() lists %zu topics instead of %zu", t.size(), want.size());
  for (auto& [k, v] : t)
    if (!want.count(k) || !want[k].count(v)) vh::fail("topics", "open() lists topic %s with type %s", k.c_str(), v.c_str());
}
static std::string text(const Profile& p, int style) {
  std::string s;
  for (auto& [k, v] : p) s += (s.empty() ? "" : style ? " ; " : ";") + k + (style ? " : " : ":") + (v == 0 && style != 2 ? "remove" : vh::fmt(style == 1 ? "%e" : "%.9g", v));
  return s;
}
// the statistics are those of the last conversion
static void check_stats(McapConverter& c, const Job& j, const Bag& in, const Bag& out) {
  std::ostringstream o;
  auto* old = std::cout.rdbuf(o.rdbuf());
  c.printStatistics();
  std::cout.rdbuf(old);
  size_t n = 0, before = 0, after = 0;
  for (size_t i = 0; i < in.messages.size(); i++) {
    auto& ch = in.channels.at(in.messages[i].channel);
    if (!ch.schema || in.schemas.at(ch.schema).name != (j.encode ? kPlain : kPacked)) continue;
    n++, before += in.messages[i].data.size(), after += out.messages[i].data.size();
  }
  std::vector<double> numbers;
  std::istringstream is(o.str());
  for (std::string w; is >> w;)
    if (isdigit(w[0])) numbers.push_back(atof(w.c_str()));
  if (n == 0 ? !numbers.empty() : (numbers.size() < 2 || numbers[0] != double(n) || std::abs(numbers[1] - double(after) / double(before)) > 0.001 * numbers[1]))
    vh::fail("statistics", "%zu messages of %zu bytes became %zu bytes, but the statistics say: %s", n, before, after, o.str().c_str());
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  const bool T = vh::thorough();
  Scratch dir;
  static const Profile profiles[] = {{}, {{"x", 0.01f}, {"y", 0.01f}, {"z", 0.01f}}, {{"intensity", 0.f}}, {{"time", 1e-6f}, {"intensity", 0.5f}}, {{"x", 0.f}, {"nothing", 0.f}}};
  // (1) bags: lists of channels x messages
  for (int len = 1; len <= (T ? 4 : 3); len++)
    vh::odometer(std::vector<int>(len, int(kKinds_)), [&](const std::vector<int>& kinds) {
      vh::run_case_l([&] {
        std::string s = "bags";
        for (int k : kinds) s += "/" + std::to_string(k);
        return s; }, [&] {
        int variant = 0;
        for (int k : kinds) variant = variant * 7 + k;
        const int nm = len == 1 ? (T ? 5 : 3) : len == 2 ? (T ? 4 : 3) : 2;
        all_sequences(len, 0, nm, [&](const std::vector<int>& msgs) {
          for (int m : msgs)
            if (kinds[m] == kIdle) return;  // a channel without messages
          variant++;
          const Bag in = make_bag(kinds, msgs, variant);
          spit(dir / "in.mcap", to_file(in));
          Job j;
          j.profile = profiles[variant % 5];
          j.resolution = variant % 3 ? std::optional<float>(variant % 3 == 1 ? 0.001f : 0.25f) : std::nullopt;
          j.viz = variant % 4 == 1;
          j.comp = CompressionOption(variant % 3);
          McapConverter c;
          check_topics(in, c.open(dir / "in.mcap"));
          if (!j.profile.empty()) c.addProfile(text(j.profile, variant % 3));
          run(c, j, dir / "enc.mcap");
          const Bag enc = from_file(dir / "enc.mcap");
          check_stats(c, j, in, enc);
          check_converted(j, in, enc);
          // and back
          Job d{false, {}, {}, false, CompressionOption((variant + 1) % 3)};
          McapConverter e;
          check_topics(enc, e.open(dir / "enc.mcap"));
          run(e, d, dir / "dec.mcap");
          check_converted(d, enc, from_file(dir / "dec.mcap"));
          // the input decoded
          McapConverter f;
          f.open(dir / "in.mcap");
          run(f, d, dir / "dec.mcap");
          check_converted(d, in, from_file(dir / "dec.mcap"));
          if (slurp(dir / "in.mcap") != to_file(in)) vh::fail("input", "the input file changed");
        });
      });
    });
  // (1b) bags that are large in one respect
  for (int which = 0; which < 7; which++)
    for (int variant = 0; variant < (T ? 12 : 3); variant++)
      vh::run_case_l([&] { return vh::fmt("large/%s/%d", kLarge[which], variant); }, [&] {
        const Bag in = large_bag(which, variant, T);
        spit(dir / "in.mcap", to_file(in));
        Job j;
        j.profile = profiles[variant % 5];
        j.resolution = variant % 3 ? std::optional<float>(variant % 3 == 1 ? 0.001f : 0.25f) : std::nullopt;
        j.viz = variant % 4 == 1 && which != 2;  // needs x, y, z
        j.comp = CompressionOption(variant % 3);
        McapConverter c;
        check_topics(in, c.open(dir / "in.mcap"));
        if (!j.profile.empty()) c.addProfile(text(j.profile, variant % 3));
        run(c, j, dir / "enc.mcap");
        vh::beat();
        const Bag enc = from_file(dir / "enc.mcap");
        check_stats(c, j, in, enc);
        check_converted(j, in, enc);
        vh::beat();
        Job d{false, {}, {}, false, CompressionOption((variant + 1) % 3)};
        McapConverter e;
        check_topics(enc, e.open(dir / "enc.mcap"));
        run(e, d, dir / "dec.mcap");
        check_converted(d, enc, from_file(dir / "dec.mcap"));
        vh::beat();
        McapConverter f;
        f.open(dir / "in.mcap");
        run(f, d, dir / "dec.mcap");
        check_converted(d, in, from_file(dir / "dec.mcap"));
        if (slurp(dir / "in.mcap") != to_file(in)) vh::fail("input", "the input file changed");
      });
  // (2) every combination of the options on one bag
  for (int p = 0; p < 5; p++)
    for (int r = 0; r < 4; r++)
      vh::run_case_l([&] { return vh::fmt("options/%d/%d", p, r); }, [&] {
        for (int comp = 0; comp < 3; comp++)
          for (int viz = 0; viz < 2; viz++)
            for (int variant = 0; variant < (T ? 12 : 6); variant++)
              for (int style = 0; style < 3; style++) {
                const Bag in = make_bag({kCloud, kText, kCompressed, kCloud2, kJson}, {0, 0, 1, 3, 2, 0, 4, 3, 0}, variant);
                spit(dir / "in.mcap", to_file(in));
                Job j{true, r == 0 ? std::nullopt : std::optional<float>(r == 1 ? 0.001f : r == 2 ? 0.1f : 1.f), profiles[p], viz == 1, CompressionOption(comp)};
                McapConverter c;
                c.open(dir / "in.mcap");
                if (p) c.addProfile(text(j.profile, style));
                run(c, j, dir / "enc.mcap");
                check_converted(j, in, from_file(dir / "enc.mcap"));
              }
      });
  // (3) histories on one converter: open (several files, a missing one, a damaged one), profile, encode, decode
  for (int first = 0; first < 8; first++)
    vh::run_case_l([&] { return vh::fmt("histories/%d", first); }, [&] {
      const Bag bags[2] = {make_bag({kCloud, kText, kCompressed}, {0, 1, 2, 0}, 5), make_bag({kJson, kCompressed, kCloud2, kCloud, kIdle}, {1, 2, 3, 0, 3}, 6)};
      spit(dir / "a.mcap", to_file(bags[0]));
      spit(dir / "b.mcap", to_file(bags[1]));
      spit(dir / "bad.mcap", Bytes(40, 7));
      all_sequences(8, 1, T ? 4 : 3, [&](const std::vector<int>& rest) {
        std::vector<int> ops{first};
        ops.insert(ops.end(), rest.begin(), rest.end());
        McapConverter c;
        int open = -1;
        Profile prof;
        for (int o : ops) {
          bool threw = false;
          const fs::path out = dir / "out.mcap";
          try {
            switch (o) {
              case 0:
              case 1:
                check_topics(bags[o], c.open(dir / (o ? "b.mcap" : "a.mcap")));
                open = o;
                break;
              case 2:
              case 3: {
                open = -1;
                c.open(dir / (o == 2 ? "missing.mcap" : "bad.mcap"));
                break;
              }
              case 4:
                c.addProfile("intensity:0.5;time:remove");
                prof["intensity"] = 0.5f, prof["time"] = 0.f;
                break;
              case 5: {
                c.addProfile("xyz: 0.1 ; intensity :remove");
                prof["x"] = prof["y"] = prof["z"] = 0.1f, prof["intensity"] = 0.f;
                break;
              }
              case 6:
              case 7: {
                Job j{o == 6, 0.01f, prof, false, CompressionOption::ZSTD};
                run(c, j, out);
                if (open < 0) vh::fail("unopened", "a conversion without an open file succeeds");
                const Bag got = from_file(out);
                check_converted(j, bags[open], got);
                check_stats(c, j, bags[open], got);
                break;
              }
            }
          } catch (const vh::Fail&) {
            throw;
          } catch (const std::exception& e) {
            threw = true;
            if (!(o == 2 || o == 3 || (o >= 6 && open < 0))) vh::fail("exception", "operation %d of a legal history fails: %s", o, e.what());
          }
          if ((o == 2 || o == 3) && !threw) vh::fail("open", "opening a %s file succeeds", o == 2 ? "missing" : "damaged");
          // the profile as the converter reports it
          auto got = c.getProfile();
          if (Profile(got.begin(), got.end()) != prof || got.size() != prof.size()) vh::fail("profile", "getProfile() differs from the profiles that were added");
          vh::transition();
        }
        vh::validated();
      });
    });
  // (4) profile strings
  for (int a = 0; a < 9; a++)
    vh::run_case_l([&] { return vh::fmt("profiles/%d", a); }, [&] {
      static const char* keys[] = {"xyz", "x", "y", "z", "intensity", "time stamp", "XYZ", "xy", "ring_2"};
      static const struct { const char* s; float v; } vals[] = {{"0.001", 0.001f}, {"1e-6", 1e-6f}, {"remove", 0.f}, {"10", 10.f}, {"0", 0.f}, {".5", 0.5f}};
      static const char* blanks[] = {"", " ", "\t", "\n", "  \r\n"};
      for (auto& v1 : vals)
        for (int b = 0; b < 9; b++)
          for (auto& v2 : vals)
            for (int s = 0; s < 5 * 5; s++)
              for (int n = 1; n <= 3; n++) {
                const std::string b1 = blanks[s % 5], b2 = blanks[s / 5];
                std::string t = b1 + keys[a] + b2 + ":" + b1 + v1.s + b2;
                if (n > 1) t += ";" + b2 + keys[b] + b1 + ":" + b2 + v2.s + b1;
                if (n > 2) t += ";z:0.25";
                Profile want;
                auto set = [&](const std::string& k, float v) {
                  if (k == "xyz") want["x"] = want["y"] = want["z"] = v;
                  else want[k] = v;
                };
                set(keys[a], v1.v);
                if (n > 1) set(keys[b], v2.v);
                if (n > 2) set("z", 0.25f);
                McapConverter c;
                c.addProfile(t);
                vh::transition();
                auto got = c.getProfile();
                if (Profile(got.begin(), got.end()) != want || got.size() != want.size()) vh::fail("profile", "the profile \"%s\" is misunderstood", t.c_str());
                vh::state_bytes(t.data(), t.size());
                vh::validated();
              }
    });
  for (int n : {8, 16, 17, 32, 33, 64, 65, 128, 129, 257})
    vh::run_case_l([&] { return vh::fmt("profiles/many/%d", n); }, [&] {
      // a cloud of n fields, all of them in the profile
      for (int style = 0; style < 3; style++)
        for (int rot = 0; rot < 4; rot++) {
          uint32_t step;
          auto f = layout(wide_kinds(n, rot, {0, 3, 4, 5, 6, 7, 8, 9}), rot % 3, step, 1.f);
          Bag in = make_bag({kCloud, kText}, {0, 1}, rot);
          for (auto& m : in.messages)
            if (in.channels.at(m.channel).schema && in.schemas.at(in.channels.at(m.channel).schema).name == kPlain) m.data = cdr::write(cdr::from_layout(rot % 2, "map", 1, 5, f, step, make_cloud(5, f, step, rot % 3)));
          Job j{true, 0.25f, {}, false, CompressionOption(rot % 3)};
          std::string t;
          for (int i = 0; i < n; i++) {
            const float v = i % 3 == 2 && i ? 0.f : 0.5f / float(1 + i);
            t += (i ? ";" : "") + f[i].name + ":" + (v == 0 ? std::string(style ? "remove" : "0") : vh::fmt("%.9g", v));
            j.profile[f[i].name] = v;
          }
          spit(dir / "in.mcap", to_file(in));
          McapConverter c;
          c.open(dir / "in.mcap");
          c.addProfile(t);
          auto got = c.getProfile();
          if (Profile(got.begin(), got.end()) != j.profile || got.size() != j.profile.size()) vh::fail("profile", "a profile of %d entries is misunderstood", n);
          run(c, j, dir / "enc.mcap");
          check_converted(j, in, from_file(dir / "enc.mcap"));
        }
    });
  vh::run_case("profiles/refused", [&] {
    for (const char* s : {"", ":", "x", "x:", "x:abc", "x:removed", "xyz:0.1,y:0.2", "x:0.1:0.2", "x 0.1", "x:0.1;y", "x:0.1;;y:0.2", "x:1e99"}) {
      McapConverter c;
      bool threw = false;
      try {
        c.addProfile(s);
      } catch (const std::exception&) {
        threw = true;
      }
      vh::transition();
      if (!threw) vh::fail("profile", "the profile \"%s\" is accepted", s);
      vh::validated();
    }
  });
  return vh::finish();
}
