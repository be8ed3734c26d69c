// C24, second program: the command line tool. Its main() (renamed by the build) runs in a scratch directory.
#include <iostream>

#include "bag.hpp"
#include "tool.hpp"
using namespace bag;

static std::string yaml(const Bag& b, const std::string& file) {
  std::string s = "rosbag2_bagfile_information:\n  version: 8\n  storage_identifier: mcap\n  relative_file_paths:\n    - " + file + "\n  topics_with_message_count:\n";
  for (auto& [i, c] : b.channels) {
    if (!c.schema) continue;
    s += "    - topic_metadata:\n        name: " + c.topic + "\n        type: " + b.schemas.at(c.schema).name + "\n        serialization_format: cdr\n      message_count: 1\n";
  }
  return s + "  compression_format: \"\"\n  files:\n    - path: " + file + "\n      message_count: 3\n  ros_distro: jazzy\n";
}
static Bytes bytes(const std::string& s) { return Bytes(s.begin(), s.end()); }
// the bag with the types that its conversion has
static Bag retyped(Bag b, bool encode) {
  for (auto& [i, s] : b.schemas)
    if (s.name == (encode ? kPlain : kPacked)) s.name = encode ? kPacked : kPlain;
  return b;
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  const bool T = vh::thorough();
  // how: 0 the directory, 1 the file in the directory, 2 the file seen from inside of the directory, 3 "." inside of it,
  //      4 a file without metadata, 5 the same from inside, 6 the directory with a slash, 7 a relative path with dots
  for (int how = 0; how < 8; how++)
    for (int encode = 0; encode < 2; encode++)
      for (int where = 0; where < 7; where++)  // default output, -o file elsewhere, -o without extension, -o in a directory to be created, other extensions, names that contain the name of the input
        vh::run_case_l([&] { return vh::fmt("paths/%d/%d/%d", how, encode, where); }, [&] {
          for (int variant = 0; variant < (T ? 12 : 6); variant++) {
            Scratch s;
            const Bag in = make_bag({kCloud, kText, kCompressed, kJson}, {0, 1, 2, 0, 3}, variant);
            const std::string stem = variant % 2 ? "bag_0" : "my.bag", file = stem + ".mcap";
            fs::create_directories(s / "data/my_bag");
            fs::create_directories(s / "cwd");
            const bool meta = how != 4 && how != 5;
            const fs::path bagdir = s / "data/my_bag";
            spit(bagdir / file, to_file(in));
            if (meta) spit(bagdir / "metadata.yaml", bytes(yaml(in, file)));
            const auto before = tree(bagdir);
            fs::current_path(how == 2 || how == 3 || how == 5 ? bagdir : s / "cwd");
            const std::string path[] = {bagdir.string(), (bagdir / file).string(), file, ".", (bagdir / file).string(), file, bagdir.string() + "/", "../data/../data/my_bag/" + file};
            std::vector<std::string> a{variant % 3 ? "-f" : "--filename", path[how], encode ? (variant % 2 ? "-c" : "--compress") : (variant % 2 ? "-d" : "--decode"), "-y"};
            const std::string suffix = encode ? "_encoded" : "_decoded";
            fs::path out;
            switch (where) {
              case 0: out = meta ? s / ("data/my_bag" + suffix + "/" + stem + suffix + ".mcap") : fs::current_path() / (stem + suffix + ".mcap"); break;
              case 1: out = s / "cwd/other.mcap", a.push_back("-o"), a.push_back(how == 2 ? "../../cwd/other.mcap" : out.string()); break;
              case 2: out = s / "cwd/noext.mcap", a.push_back("-o"), a.push_back((s / "cwd/noext").string()); break;
              case 4: out = s / "cwd/x.bag.mcap", a.push_back("-o"), a.push_back((s / "cwd/x.bag").string()); break;
              case 5: out = s / ("cwd/long.prefix_" + file), a.push_back("-o"), a.push_back(out.string()); break;
              case 6: out = s / ("cwd/a" + file + "_" + file), a.push_back("-o"), a.push_back(out.string()); break;
              case 3: out = s / "new/dir/x.mcap", a.push_back("-o"), a.push_back(out.string()); break;
            }
            const Job j{encode == 1, encode ? std::optional<float>(variant % 3 == 1 ? 0.25f : 0.001f) : std::nullopt, encode && variant >= 3 ? Profile{{"intensity", 0.f}, {"x", 0.1f}, {"y", 0.1f}, {"z", 0.1f}} : Profile{}, encode && (variant % 5 == 2 || variant == 3),
                        variant % 2 ? CompressionOption::NONE : CompressionOption::ZSTD};
            if (variant % 3 == 1) a.push_back("-r"), a.push_back("0.25");
            if (!j.profile.empty()) a.push_back("--profile"), a.push_back("intensity: remove; xyz: 0.1");
            if (j.viz) a.push_back("--viz");
            if (variant % 2) a.push_back("-m"), a.push_back("none");
            if (variant % 6 == 5) a.push_back("-s");
            auto o = tool(a);
            if (o.rc) vh::fail("refused", "a legal conversion is refused (exit code %d)", o.rc);
            if (!fs::exists(out)) vh::fail("output", "the output is not where it should be (%s)", out.lexically_relative(s.dir).c_str());
            check_converted(j, in, from_file(out));
            for (auto& [k, v] : before) {
              auto now = tree(bagdir);
              if (!now.count(k) || now[k] != v) vh::fail("input", "the input file %s changed", k.c_str());
            }
            if (meta) {
              auto y = out.parent_path() / "metadata.yaml";
              if (!fs::exists(y)) vh::fail("yaml", "no metadata.yaml next to the output");
              if (slurp(y) != bytes(yaml(retyped(in, encode), out.filename().string()))) vh::fail("yaml", "wrong metadata.yaml:\n%s", std::string((const char*)slurp(y).data(), slurp(y).size()).c_str());
            }
            vh::validated();
          }
        });
  // options that are refused: an exit code, no output, nothing changed
  vh::run_case("refused", [&] {
    Scratch s;
    fs::create_directories(s / "bag");
    fs::create_directories(s / "two");
    fs::create_directories(s / "none");
    fs::create_directories(s / "nometa");
    const Bag in = make_bag({kCloud, kCompressed}, {0, 1}, 1);
    const Bag text = make_bag({kText}, {0}, 1), clouds = make_bag({kCloud}, {0}, 1), packed = make_bag({kCompressed}, {0}, 1);
    spit(s / "bag/a.mcap", to_file(in)), spit(s / "bag/metadata.yaml", bytes(yaml(in, "a.mcap")));
    spit(s / "two/a.mcap", to_file(in)), spit(s / "two/b.mcap", to_file(in)), spit(s / "two/metadata.yaml", bytes(yaml(in, "a.mcap")));
    spit(s / "none/metadata.yaml", bytes(yaml(in, "a.mcap"))), spit(s / "nometa/a.mcap", to_file(in));
    spit(s / "t.mcap", to_file(text)), spit(s / "c.mcap", to_file(clouds)), spit(s / "p.mcap", to_file(packed)), spit(s / "bad.mcap", Bytes(50, 1)), spit(s / "x.bag", to_file(in));
    fs::current_path(s.dir);
    auto keep = tree(s.dir);
    const std::string d = s.dir.string() + "/";
    struct R {
      std::vector<std::string> a;
      int rc;
    };
    for (auto& r : std::vector<R>{{{}, 1},
                                  {{"-h"}, 0},
                                  {{"-f", d + "c.mcap"}, 1},
                                  {{"-c"}, 1},
                                  {{"-f", "", "-c"}, 1},
                                  {{"-f", d + "c.mcap", "-c", "-d"}, 1},
                                  {{"-f", d + "p.mcap", "-d", "--viz"}, 1},
                                  {{"-f", d + "p.mcap", "-d", "--profile", "xyz:0.1"}, 1},
                                  {{"-f", d + "x.bag", "-c"}, 1},
                                  {{"-f", d + "two", "-c"}, 1},
                                  {{"-f", d + "none", "-c"}, 1},
                                  {{"-f", d + "nometa", "-c"}, 1},
                                  {{"-f", d + "bag", "-c", "-o", d + "bag/out.mcap"}, 1},
                                  {{"-f", d + "bag/a.mcap", "-c", "-o", d + "bag/../bag/a.mcap"}, 1},
                                  {{"-f", d + "c.mcap", "-c", "-m", "gzip"}, 1},
                                  {{"-f", d + "c.mcap", "-c", "-m", "lz4"}, 1},
                                  {{"-f", d + "c.mcap", "-d"}, 1},
                                  {{"-f", d + "p.mcap", "-c"}, 1},
                                  {{"-f", d + "t.mcap", "-c"}, 0},
                                  {{"-f", d + "t.mcap", "-d"}, 0},
                                  {{"-f", d + "bad.mcap", "-c"}, 1},
                                  {{"-f", d + "missing.mcap", "-c"}, 1},
                                  {{"-f", d + "c.mcap", "-c", "-y", "-o", d + "c.mcap"}, 1},
                                  {{"-f", d + "c.mcap", "-c", "-y", "-o", "c"}, 1},
                                  {{"-f", "p.mcap", "-d", "-y", "-o", d + "bag/../p"}, 1},
                                  {{"-f", d + "c.mcap", "-c", "--profile", "xyz"}, 1},
                                  {{"-f", d + "c.mcap", "-c", "--profile", "xyz:abc"}, 1}}) {
      auto o = tool(r.a);
      std::string all;
      for (auto& x : r.a) all += x + " ";
      if ((o.rc != 0) != (r.rc != 0)) vh::fail("exit-code", "exit code %d for: %s", o.rc, all.c_str());
      auto now = tree(s.dir);
      for (auto& [k, v] : keep)
        if (!now.count(k) || now[k] != v) vh::fail("changed", "%s changed by: %s", k.c_str(), all.c_str());
      for (auto& [k, v] : now)
        if (!keep.count(k)) vh::fail("created", "%s created by: %s", k.c_str(), all.c_str());
      vh::validated();
    }
  });
  // an existing output is replaced only with consent
  for (const char* answer : {"n", "N", "", "x", "y", "Y"})
    vh::run_case(vh::fmt("overwrite/%s", answer), [&] {
      for (int yes = 0; yes < 2; yes++) {
        Scratch s;
        const Bag in = make_bag({kCloud, kText}, {0, 1, 0}, 2);
        spit(s / "in.mcap", to_file(in)), spit(s / "out.mcap", bytes("precious"));
        fs::current_path(s.dir);
        std::vector<std::string> a{"-c", "-f", (s / "in.mcap").string(), "-o", (s / "out.mcap").string()};
        if (yes) a.push_back("--yes");
        tool(a, answer + std::string("\n"));
        const bool agreed = yes || answer[0] == 'y' || answer[0] == 'Y';
        if (!agreed && slurp(s / "out.mcap") != bytes("precious")) vh::fail("overwrite", "an existing file was overwritten without consent");
        if (agreed) check_converted(Job{true, 0.001f, {}, false, CompressionOption::ZSTD}, in, from_file(s / "out.mcap"));
        vh::validated();
      }
    });
  // metadata.yaml cannot be written (no space left on the device; a directory of that name)
  for (int encode = 0; encode < 2; encode++)
    for (int how = 0; how < 3; how++)
      vh::run_case(vh::fmt("metadata-unwritable/%d/%d", encode, how), [&] {
        for (int variant = 0; variant < 6; variant++) {
          Scratch s;
          const Bag in = make_bag({kCloud, kText, kCompressed, kJson}, {0, 1, 2, 0, 3}, variant);
          fs::create_directories(s / "bag");
          fs::create_directories(s / "out");
          spit(s / "bag/b.mcap", to_file(in)), spit(s / "bag/metadata.yaml", bytes(yaml(in, "b.mcap") + std::string(variant % 2 ? 20000 : 0, '#')));
          fs::current_path(s.dir);
          if (how == 0) fs::create_symlink("/dev/full", s / "out/metadata.yaml");
          if (how == 1) fs::create_directories(s / "out/metadata.yaml");
          auto o = tool({encode ? "-c" : "-d", "-f", variant % 3 ? "bag" : "bag/b.mcap", "-o", "out/b2.mcap", "-y"});
          if (how < 2 && !o.rc) vh::fail("exit-code", "exit code 0 although metadata.yaml was not written");
          if (how == 2 && (o.rc || !fs::exists(s / "out/metadata.yaml"))) vh::fail("yaml", "no metadata.yaml next to the output");
          vh::validated();
        }
      });
  // profiles from a file
  vh::run_case("profile-file", [&] {
    static const struct { const char* text; Profile p; } ps[] = {{"xyz:0.25", {{"x", 0.25f}, {"y", 0.25f}, {"z", 0.25f}}},
                                                                {"xyz:0.25\n", {{"x", 0.25f}, {"y", 0.25f}, {"z", 0.25f}}},
                                                                {"xyz:0.25; intensity:remove", {{"x", 0.25f}, {"y", 0.25f}, {"z", 0.25f}, {"intensity", 0.f}}},
                                                                {"  xyz : 0.25 ;\n  intensity : remove\n", {{"x", 0.25f}, {"y", 0.25f}, {"z", 0.25f}, {"intensity", 0.f}}},
                                                                {"x:1;y:1;z:1;time:0.5;intensity:0.001\n", {{"x", 1.f}, {"y", 1.f}, {"z", 1.f}, {"time", 0.5f}, {"intensity", 0.001f}}}};
    for (auto& p : ps)
      for (int variant = 0; variant < 6; variant++)
        for (int file = 0; file < 2; file++) {
          Scratch s;
          const Bag in = make_bag({kCloud, kText, kCloud2}, {0, 1, 0, 2, 0}, variant);
          spit(s / "in.mcap", to_file(in)), spit(s / "profile.txt", bytes(p.text));
          fs::current_path(s.dir);
          auto o = tool({"-c", "-f", "in.mcap", "-o", "out.mcap", "--profile", file ? "profile.txt" : p.text});
          if (o.rc) vh::fail("profile", "the profile %s is refused: %s", file ? "file" : "text", p.text);
          check_converted(Job{true, 0.001f, p.p, false, CompressionOption::ZSTD}, in, from_file(s / "out.mcap"));
          vh::validated();
        }
  });
  return vh::finish();
}
