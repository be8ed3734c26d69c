// C25, second and third program: mcap_cutter (CUTTER) and mcap_header_inspector. main() (renamed by the build) runs in a scratch directory.
#include "tool.hpp"
using namespace bag;

#ifdef CUTTER
static void check_cut(const Bag& in, const Bag& out, int limit) {
  if (in.profile != out.profile) vh::fail("profile", "the profile of the bag changed");
  std::multiset<std::string> want, got;
  auto plain = [](const Bag& b, const Chan& c) { return c.schema && b.schemas.at(c.schema).name == kPlain; };
  for (auto& [i, c] : in.channels)
    if (plain(in, c)) want.insert(c.topic + "|" + c.encoding);
  for (auto& [i, c] : out.channels) {
    if (!plain(out, c)) vh::fail("channels", "the cut bag has a channel of another type: %s", c.topic.c_str());
    got.insert(c.topic + "|" + c.encoding);
  }
  if (want != got) vh::fail("channels", "the cut bag has other channels");
  std::map<uint16_t, int> count;
  std::vector<Msg> w;
  for (auto& m : in.messages)
    if (plain(in, in.channels.at(m.channel)) && count[m.channel]++ < limit) w.push_back(m);
  if (w.size() != out.messages.size()) vh::fail("messages", "%zu messages instead of %zu", out.messages.size(), w.size());
  std::map<uint16_t, uint16_t> ids;  // a channel becomes one channel
  for (size_t i = 0; i < w.size(); i++) {
    const Msg &a = w[i], &b = out.messages[i];
    if (in.channels.at(a.channel).topic != out.channels.at(b.channel).topic) vh::fail("channel", "message %zu of %s went to %s", i, in.channels.at(a.channel).topic.c_str(), out.channels.at(b.channel).topic.c_str());
    if (ids.emplace(a.channel, b.channel).first->second != b.channel) vh::fail("channel", "the messages of a channel were distributed");
    if (a.sequence != b.sequence || a.log != b.log || a.pub != b.pub || a.data != b.data) vh::fail("message", "message %zu changed", i);
    vh::validated();
  }
  std::set<uint16_t> distinct;
  for (auto& [a, b] : ids) distinct.insert(b);
  if (distinct.size() != ids.size()) vh::fail("channel", "two channels became one");
  for (auto& [i, x] : out.schemas)
    if (x.name != kPlain || x.data.find("uint8[] data") == std::string::npos) vh::fail("schema", "schema %s with a wrong definition", x.name.c_str());
}
#endif

static void check(const Scratch& dir, const Bag& in, int variant, const std::vector<int>& limits) {
  (void)limits;
          const Bytes file = to_file(in);
          spit(dir / "in.mcap", file);
          size_t plain = 0, packed = 0;
          for (auto& [i, c] : in.channels)
            if (c.schema) plain += in.schemas.at(c.schema).name == kPlain, packed += in.schemas.at(c.schema).name == kPacked;
#ifdef CUTTER
          for (int limit : limits) {
            std::vector<std::string> a{variant % 2 ? "-f" : "--filename", variant % 3 ? "in.mcap" : (dir / "in.mcap").string()};
            if (limit) a.push_back(variant % 2 ? "-n" : "--max-messages"), a.push_back(std::to_string(limit));
            fs::path out = dir / "in_cut.mcap";
            if (variant % 4 == 1) a.push_back("-o"), a.push_back("other"), out = dir / "other.mcap";
            if (variant % 4 == 2) a.push_back("--output"), a.push_back((dir / "a.b.mcap").string()), out = dir / "a.b.mcap";
            std::error_code ec;
            fs::remove(out, ec);
            auto q = tool(a);
            if (q.rc) vh::fail("refused", "a legal bag is refused: %s", g_out.c_str());
            if (plain == 0) {
              if (fs::exists(out)) vh::fail("created", "a bag was written although there is nothing to write");
            } else
              check_cut(in, from_file(out), limit ? limit : 1000);
            fs::remove(out, ec);
          }
#else
          auto q = tool({variant % 2 ? "-f" : "--filename", variant % 3 ? "in.mcap" : (dir / "in.mcap").string()});
          const Msg* first = nullptr;
          for (auto& m : in.messages) {
            auto& c = in.channels.at(m.channel);
            if (!first && c.schema && in.schemas.at(c.schema).name == kPacked) first = &m;
          }
          if (packed && !first && !q.rc) vh::fail("exit-code", "exit code 0 although there is no message");
          if (!packed && q.rc) vh::fail("exit-code", "exit code %d for a bag without compressed clouds", q.rc);
          if (first) {
            auto m = cdr::read(first->data, true);
            auto has = [&](const std::string& s) {
              if (g_out.find(s) == std::string::npos) vh::fail("text", "the output does not contain \"%s\": %s", s.c_str(), g_out.c_str());
            };
            has("Topic: " + in.channels.at(first->channel).topic + "\n");
            if (m.data.empty()) return;  // an empty cloud: no header to show
            if (q.rc) vh::fail("refused", "a legal bag is refused: %s", g_out.c_str());
            auto info = dec_full(m.data).info;
            has("Message size: " + std::to_string(first->data.size()) + " bytes\n"), has("Timestamp: " + std::to_string(first->log) + " ns\n");
            has("Compressed data size: " + std::to_string(m.data.size()) + " bytes\n");
            has(EncodingInfoToYAML(info));
            has("Width: " + std::to_string(info.width) + "\n"), has("Height: " + std::to_string(info.height) + "\n"), has("Point step: " + std::to_string(info.point_step) + "\n");
            has("Total points: " + std::to_string(info.width * info.height) + "\n"), has("Total data size: " + std::to_string(info.width * info.height * info.point_step) + " bytes\n");
            has(std::string("Encoding option: ") + ToString(info.encoding_opt) + "\n"), has(std::string("Compression option: ") + ToString(info.compression_opt) + "\n");
            has("Number of fields: " + std::to_string(info.fields.size()) + "\n");
            for (size_t i = 0; i < info.fields.size(); i++) has(vh::fmt("Field %zu:\n  Name: %s\n  Offset: %u\n  Type: %s\n", i, info.fields[i].name.c_str(), info.fields[i].offset, ToString(info.fields[i].type)));
            vh::validated();
          }
#endif
          if (slurp(dir / "in.mcap") != file) vh::fail("input", "the input changed");
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  const bool T = vh::thorough();
  Scratch dir;
  for (int len = 1; len <= (T ? 4 : 3); len++)
    vh::odometer(std::vector<int>(len, int(kKinds_)), [&](const std::vector<int>& kinds) {
      vh::run_case_l([&] {
        std::string s = "bags";
        for (int k : kinds) s += "/" + std::to_string(k);
        return s; }, [&] {
        fs::current_path(dir.dir);
        int variant = 0;
        for (int k : kinds) variant = variant * 7 + k;
        all_sequences(len, 0, len == 1 ? 5 : len == 2 ? (T ? 5 : 4) : 3, [&](const std::vector<int>& msgs) {
          for (int m : msgs)
            if (kinds[m] == kIdle) return;
          variant++;
          check(dir, make_bag(kinds, msgs, variant), variant, {0, 1, 2, 3});
        });
      });
    });
  for (int which = 0; which < 7; which++)
    for (int variant = 0; variant < (T ? 12 : 4); variant++)
      vh::run_case_l([&] { return vh::fmt("large/%s/%d", kLarge[which], variant); }, [&] {
        fs::current_path(dir.dir);
        Bag in = large_bag(which, variant, T);
        if (variant % 2) std::rotate(in.messages.begin(), in.messages.begin() + std::min<size_t>(in.messages.size(), variant * 3), in.messages.end());
        check(dir, in, variant, {0, 1, 5, 255, 256, 257, 333, 1001, 70000});
        // only the last compressed message is left (what the inspector shows)
        while (in.messages.size() > 1) {
          auto& c = in.channels.at(in.messages.back().channel);
          if (c.schema && in.schemas.at(c.schema).name == kPacked) break;
          in.messages.pop_back();
        }
        in.messages.erase(in.messages.begin(), in.messages.end() - 1);
        check(dir, in, variant, {1});
      });
  vh::run_case("refused", [&] {
    Scratch s;
    const Bag in = make_bag({kCloud, kCompressed}, {0, 1}, 1);
    spit(s / "a.mcap", to_file(in)), spit(s / "x.bag", to_file(in)), spit(s / "bad.mcap", Bytes(40, 3));
    fs::current_path(s.dir);
    auto keep = tree(s.dir);
    struct R {
      std::vector<std::string> a;
      int rc;
    };
    for (auto& r : std::vector<R>{{{}, 1}, {{"-h"}, 0}, {{"-f", "x.bag"}, 1}, {{"-f", "missing.mcap"}, 1}, {{"-f", "bad.mcap"}, 1},
#ifdef CUTTER
                                  {{"-f", "a.mcap", "-n", "0"}, 1}, {{"-f", "a.mcap", "-n", "-5"}, 1}, {{"-f", "a.mcap", "-o", "a.mcap"}, 1}, {{"-f", (s / "a.mcap").string(), "-o", "a"}, 1}
#endif
         }) {
      auto q = tool(r.a);
      std::string all;
      for (auto& x : r.a) all += x + " ";
      if ((q.rc != 0) != (r.rc != 0)) vh::fail("exit-code", "exit code %d for: %s", q.rc, all.c_str());
      if (tree(s.dir) != keep) vh::fail("changed", "files changed by: %s", all.c_str());
      vh::validated();
    }
  });
  return vh::finish();
}
