// C25, first program: pcd_to_cloudini_converter. Its main() (renamed by the build) runs in a scratch directory.
#include <pcl/console/print.h>
#include <sys/resource.h>

#include <csignal>

#include "pcd.hpp"
#include "tool.hpp"
using namespace bag;

struct F {
  const char* name;
  FT t;
};
static const std::vector<std::vector<F>> kFiles = {
    {{"x", FT::FLOAT32}, {"y", FT::FLOAT32}, {"z", FT::FLOAT32}},
    {{"x", FT::FLOAT32}, {"y", FT::FLOAT32}, {"z", FT::FLOAT32}, {"intensity", FT::FLOAT32}},
    {{"x", FT::FLOAT32}, {"y", FT::FLOAT32}, {"z", FT::FLOAT32}, {"intensity", FT::UINT8}, {"t", FT::UINT64}},
    {{"intensity", FT::FLOAT32}, {"x", FT::FLOAT64}, {"ring", FT::UINT16}, {"id", FT::INT64}},
    {{"x", FT::FLOAT32}, {"y", FT::FLOAT32}, {"z", FT::FLOAT32}, {"normal_x", FT::FLOAT32}, {"intensity", FT::FLOAT32}, {"label", FT::INT32}},
    {{"id", FT::INT64}, {"stamp", FT::FLOAT64}, {"x", FT::FLOAT32}, {"a", FT::INT8}, {"b", FT::INT16}, {"c", FT::UINT32}}};
struct Pcd {
  std::vector<PointField> f;
  uint32_t step = 0, h, w;
  Bytes cloud;
  Bytes file;
};
static Pcd make(int layout, int content, bool binary, uint32_t h, uint32_t w) {
  Pcd p;
  p.h = h, p.w = w;
  for (auto& x : kFiles[layout]) p.f.push_back({x.name, p.step, x.t, {}}), p.step += size_of(x.t);
  p.cloud = make_cloud(size_t(h) * w, p.f, p.step, content);
  const std::string s = pcd::file(p.f, p.step, h, w, p.cloud, binary);
  p.file = Bytes(s.begin(), s.end());
  return p;
}
static std::string pcd_name(int i) { return i == 0 ? "x" : i == 1 ? "y" : i == 2 ? "z" : vh::fmt("f_%d", i); }
struct Opt {
  EncodingOptions e = EncodingOptions::LOSSY;
  CompressionOption c = CompressionOption::ZSTD;
  double r = 0.001, i = 0.001;
};
static void check_output(const Pcd& p, const Opt& o, const fs::path& out) {
  if (!fs::exists(out)) vh::fail("output", "%s was not written", out.filename().c_str());
  const Bytes z = slurp(out);
  auto d = dec_full(z);
  if (d.info.encoding_opt != o.e) vh::fail("encoding", "the file was encoded as '%s' instead of '%s'", oname(d.info.encoding_opt), oname(o.e));
  if (d.info.compression_opt != o.c) vh::fail("compression", "the file was compressed with '%s' instead of '%s'", cname(d.info.compression_opt), cname(o.c));
  if (d.info.width != p.w || d.info.height != p.h || d.info.point_step != p.step || d.info.fields.size() != p.f.size()) vh::fail("description", "the description of the cloud changed");
  EncodingInfo want = d.info;
  for (size_t k = 0; k < p.f.size(); k++) {
    auto& g = d.info.fields[k];
    if (g.name != p.f[k].name || g.offset != p.f[k].offset || g.type != p.f[k].type) vh::fail("description", "field '%s' changed", p.f[k].name.c_str());
    std::optional<float> res;
    const bool xyz = g.name == "x" || g.name == "y" || g.name == "z";
    if (g.type == FT::FLOAT32) {
      const double r = g.name == "intensity" ? o.i : o.r;
      if (r > 0) res = float(r);
      if (!xyz && g.name != "intensity" && !g.resolution) res = {};  // other floats: with the resolution of the coordinates, or exact
    }
    if (o.e == EncodingOptions::LOSSY && g.resolution != res) vh::fail("resolution", "field '%s' has the resolution %g instead of %g", g.name.c_str(), g.resolution.value_or(-1), res.value_or(-1));
    want.fields[k] = {p.f[k].name, p.f[k].offset, p.f[k].type, res};
  }
  check_cloud({(int)want.version, o.e, o.c, false}, want, p.cloud, d.data, 0xCD, "PCD file");
  vh::state_bytes(z.data(), z.size());
  vh::validated();
}
static const char* kE[] = {"none", "lossy", "lossless"};
static const EncodingOptions kEo[] = {EncodingOptions::NONE, EncodingOptions::LOSSY, EncodingOptions::LOSSLESS};
static const char* kC[] = {"none", "lz4", "zstd"};
static const CompressionOption kCo[] = {CompressionOption::NONE, CompressionOption::LZ4, CompressionOption::ZSTD};

int main(int argc, char** argv) {
  vh::init(argc, argv);
  const bool T = vh::thorough();
  pcl::console::setVerbosityLevel(pcl::console::L_ALWAYS);
  // (1) one file, all options
  for (int l = 0; l < int(kFiles.size()); l++)
    for (int e = 0; e < 4; e++)  // 3: not given
      for (int c = 0; c < 4; c++)
        vh::run_case_l([&] { return vh::fmt("file/%d/%d/%d", l, e, c); }, [&] {
          static const char* rs[] = {nullptr, "0.25", "0", "1e-05"};
          Scratch s;
          for (int r = 0; r < 4; r++)
            for (int i = 0; i < 4; i++)
              for (int n = 0; n < (T ? 6 : 4); n++) {
                static const std::pair<uint32_t, uint32_t> dims[] = {{1, 1}, {1, 7}, {3, 5}, {1, 300}, {2, 40}, {1, 33000}};
                const int content = (r + i + n) % 3;
                const Pcd p = make(l, content, n & 1, dims[n].first, dims[n].second);
                fs::create_directories(s / "d");
                spit(s / "d/in.v1.pcd", p.file);
                fs::current_path(s / "d");
                std::vector<std::string> a{n % 2 ? "-f" : "--filename", n % 3 ? "in.v1.pcd" : (s / "d/in.v1.pcd").string()};
                Opt o;
                if (e < 3) a.push_back(n % 2 ? "-e" : "--encoding"), a.push_back(kE[e]), o.e = kEo[e];
                if (c < 3) a.push_back(n % 2 ? "-c" : "--compression"), a.push_back(kC[c]), o.c = kCo[c];
                if (rs[r]) a.push_back(n % 2 ? "-r" : "--resolution"), a.push_back(rs[r]), o.r = atof(rs[r]);
                if (rs[i]) a.push_back(n % 2 ? "-i" : "--intensity-resolution"), a.push_back(rs[i]), o.i = atof(rs[i]);
                if (n == 2) a.push_back("-v");
                fs::path out = s / "d/in.v1.cldn";
                switch ((r + 2 * i + n) % 5) {
                  case 1: out = s / "d/out.cldn", a.push_back("-o"), a.push_back(out.string()); break;
                  case 2: out = s / "out.cldn", a.push_back("-o"), a.push_back("../out"); break;
                  case 3: out = s / "d/x.cldn", a.push_back("-o"), a.push_back("x.pcd"); break;
                }
                std::error_code ec;
                fs::remove(out, ec);
                auto q = tool(a);
                if (q.rc) vh::fail("refused", "a legal conversion is refused: %s", g_out.c_str());
                check_output(p, o, out);
                if (slurp(s / "d/in.v1.pcd") != p.file) vh::fail("input", "the input changed");
                fs::remove(out);
                if (tree(s.dir).size() != 1) vh::fail("created", "other files were written");
              }
        });
  // (1b) many fields, many points, many files
  for (int nf : {9, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 255, 256, 257})
    vh::run_case_l([&] { return vh::fmt("wide/%d", nf); }, [&] {
      for (int rot = 0; rot < 6; rot++) {
        Scratch s;
        static const FT types[] = {FT::FLOAT32, FT::INT16, FT::FLOAT64, FT::UINT8, FT::INT32, FT::UINT64};
        Pcd p;
        p.h = 1, p.w = 3 + rot;
        for (int i = 0; i < nf; i++) {
          const FT t = rot == 0 ? FT::FLOAT32 : types[(i + rot) % 6];
          p.f.push_back({i == (rot % 2 ? nf - 1 : nf / 2) ? "intensity" : pcd_name(i), p.step, t, {}}), p.step += size_of(t);
        }
        p.cloud = make_cloud(p.w, p.f, p.step, rot % 3);
        const std::string t = pcd::file(p.f, p.step, p.h, p.w, p.cloud, rot % 2);
        p.file = Bytes(t.begin(), t.end());
        spit(s / "in.pcd", p.file);
        fs::current_path(s.dir);
        Opt o;
        o.e = kEo[rot % 3], o.c = kCo[nf % 3], o.r = 0.25, o.i = 0.5;
        auto q = tool({"-f", "in.pcd", "-e", kE[rot % 3], "-c", kC[nf % 3], "-r", "0.25", "-i", "0.5"});
        if (q.rc) vh::fail("refused", "a legal conversion is refused: %s", g_out.c_str());
        check_output(p, o, s / "in.cldn");
      }
    });
  for (uint32_t n : {65535u, 65536u, 65537u, 100000u})
    vh::run_case_l([&] { return vh::fmt("long/%u", n); }, [&] {
      for (int l = 0; l < int(kFiles.size()); l++) {
        Scratch s;
        const Pcd p = make(l, l % 3, true, 1, n);
        spit(s / "in.pcd", p.file);
        fs::current_path(s.dir);
        auto q = tool({"-f", "in.pcd"});
        if (q.rc) vh::fail("refused", "a legal conversion is refused: %s", g_out.c_str());
        check_output(p, Opt{}, s / "in.cldn");
        vh::beat();
      }
    });
  for (int n : {10, 40, 130, 300})
    vh::run_case_l([&] { return vh::fmt("many-files/%d", n); }, [&] {
      Scratch s;
      fs::create_directories(s / "d");
      std::vector<Pcd> ps;
      for (int i = 0; i < n; i++) ps.push_back(make(i % int(kFiles.size()), i % 3, i & 1, 1, 2 + i % 9)), spit(s / vh::fmt("d/%d.pcd", i), ps.back().file);
      auto q = tool({"-b", (s / "d").string(), "-y"});
      if (q.rc) vh::fail("refused", "a directory is refused: %s", g_out.c_str());
      for (int i = 0; i < n; i++) check_output(ps[i], Opt{}, s / vh::fmt("d/%d.cldn", i));
      if (tree(s / "d").size() != size_t(2 * n)) vh::fail("created", "other files were written");
    });
  // (2) directories: every combination of good, damaged, foreign files and existing outputs
  for (int k = 0; k < 4 * 4 * 4; k++)
    vh::run_case_l([&] { return vh::fmt("batch/%d", k); }, [&] {
      for (int yes = 0; yes < 2; yes++)
        for (const char* answers : {"y\ny\ny\n", "n\nn\nn\n", ""}) {
          Scratch s;
          fs::create_directories(s / "d");
          std::map<std::string, Pcd> good;
          std::map<std::string, Bytes> before;
          auto put = [&](const std::string& n, const Bytes& b) { spit(s / ("d/" + n), b), before[n] = b; };
          bool any_existing = false;
          std::set<std::string> existing;
          for (int f = 0; f < 3; f++) {
            const int kind = k / (f == 0 ? 1 : f == 1 ? 4 : 16) % 4;
            const std::string n = std::string(1, char('a' + f)) + ".x";
            const Pcd p = make((k + f) % int(kFiles.size()), f, f & 1, 1, 5 + f);
            if (kind == 0 || kind == 3) good[n] = p, put(n + ".pcd", p.file);
            if (kind == 3) put(n + ".cldn", Bytes(5, 'p')), any_existing = true, existing.insert(n);
            if (kind == 1) put(n + ".pcd", Bytes(p.file.begin(), p.file.begin() + 20));
            if (kind == 2) put(n + ".txt", p.file);
          }
          (void)any_existing;
          Opt o;
          o.r = 0.5;
          std::vector<std::string> a{"-b", (s / "d").string(), "-r", "0.5"};
          if (k % 2) a.push_back("-e"), a.push_back("lossless"), o.e = EncodingOptions::LOSSLESS;
          if (yes) a.push_back("-y");
          auto q = tool(a, answers);
          if (q.rc) vh::fail("refused", "a directory is refused: %s", g_out.c_str());
          auto now = tree(s / "d");
          for (auto& [n, p] : good) {
            if (existing.count(n) && !yes && answers[0] != 'y') {
              if (now[n + ".cldn"] != Bytes(5, 'p')) vh::fail("overwrite", "an existing file was overwritten without consent");
            } else
              check_output(p, o, s / ("d/" + n + ".cldn"));
            now.erase(n + ".cldn");
          }
          for (auto& [n, b] : before)
            if (!(good.count(n.substr(0, 3)) && n.ends_with(".cldn"))) {
              if (!now.count(n) || now[n] != b) vh::fail("input", "%s changed", n.c_str());
              now.erase(n);
            }
          if (!now.empty()) vh::fail("created", "%s was written", now.begin()->first.c_str());
          vh::validated();
        }
    });
  // (2b) the disk is full after any number of bytes: the file is complete, or the exit code tells that it is not
  signal(SIGXFSZ, SIG_IGN);
  for (int l = 0; l < int(kFiles.size()); l++)
    for (int e = 0; e < 3; e++)
      vh::run_case_l([&] { return vh::fmt("disk-full/%d/%d", l, e); }, [&] {
        for (uint32_t n : {4u, 900u}) {
          Scratch s;
          const Pcd p = make(l, 1, true, 1, n);
          spit(s / "in.pcd", p.file);
          fs::current_path(s.dir);
          Opt o;
          o.e = kEo[e], o.c = kCo[n == 4 ? l % 3 : 0];
          const std::vector<std::string> a{"-f", "in.pcd", "-e", kE[e], "-c", kC[n == 4 ? l % 3 : 0], "-y"};
          if (tool(a).rc) vh::fail("refused", "a legal conversion is refused: %s", g_out.c_str());
          const size_t size = fs::file_size(s / "in.cldn");
          for (size_t limit = 0; limit <= size; limit += T || n == 4 || limit + 3 > size || limit % 4096 < 2 || (limit > 8185 && limit < 8195) ? 1 : 2 + limit % 5) {
            rlimit old, now;
            getrlimit(RLIMIT_FSIZE, &old);
            now = old, now.rlim_cur = limit;
            setrlimit(RLIMIT_FSIZE, &now);
            auto q = tool(a);
            setrlimit(RLIMIT_FSIZE, &old);
            if (limit == size && q.rc) vh::fail("refused", "a legal conversion is refused: %s", g_out.c_str());
            if (!q.rc) check_output(p, o, s / "in.cldn");
            if (slurp(s / "in.pcd") != p.file) vh::fail("input", "the input changed");
            vh::validated();
          }
          vh::beat();
        }
      });
  // (3) refusals change nothing
  vh::run_case("refused", [&] {
    Scratch s;
    const Pcd p = make(1, 0, false, 1, 4);
    spit(s / "a.pcd", p.file), spit(s / "x.txt", p.file), spit(s / "bad.pcd", Bytes(30, 'x')), spit(s / "precious.cldn", Bytes(4, 'p'));
    fs::current_path(s.dir);
    auto keep = tree(s.dir);
    struct R {
      std::vector<std::string> a;
      int rc;
    };
    for (auto& r : std::vector<R>{{{}, 1}, {{"-h"}, 0}, {{"-f", "x.txt"}, 1}, {{"-f", "missing.pcd"}, 1}, {{"-f", "bad.pcd"}, 1}, {{"-f", "a.pcd", "-b", "."}, 1}, {{"-b", "missing"}, 1}, {{"-b", "a.pcd"}, 1},
                                  {{"-f", "a.pcd", "-e", "best"}, 1}, {{"-f", "a.pcd", "-c", "gzip"}, 1}, {{"-f", "a.pcd", "-o", "precious"}, 1}, {{"-f", "a.pcd", "-o", "precious.cldn"}, 1}, {{"-f", "a.pcd", "-o", "no/dir/x.cldn"}, 1}})
      for (const char* answer : {"n\n", "", "x\n"}) {
        auto q = tool(r.a, answer);
        std::string all;
        for (auto& x : r.a) all += x + " ";
        if ((q.rc != 0) != (r.rc != 0)) vh::fail("exit-code", "exit code %d for: %s", q.rc, all.c_str());
        if (tree(s.dir) != keep) vh::fail("changed", "files changed by: %s", all.c_str());
        vh::validated();
      }
  });
  return vh::finish();
}
