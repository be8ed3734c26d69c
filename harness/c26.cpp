// C26: the Python decoder. A Python process (lib/pywasm/server.py) executes the decoder of the working tree on a stand-in for wasmtime that
// calls the natively compiled entry points; this program sends messages and compares the arrays that come back.
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <sstream>

#include "cdr.hpp"
#include "gen.hpp"
using namespace cl;

static int g_in = -1, g_out = -1;
static pid_t g_pid = -1;
static void stop() {
  if (g_pid > 0) close(g_in), close(g_out), waitpid(g_pid, nullptr, 0);
  g_pid = -1;
}
static void start() {
  int a[2], b[2];
  if (pipe(a) || pipe(b)) throw std::runtime_error("pipe");
  g_pid = fork();
  if (g_pid == 0) {
    dup2(a[0], 0), dup2(b[1], 1);
    for (int i : {a[0], a[1], b[0], b[1]}) close(i);
    execlp("python3-vt", "python3-vt", getenv("VERIF_PY_SERVER"), nullptr);
    _exit(127);
  }
  close(a[0]), close(b[1]);
  g_in = a[1], g_out = b[0];
}
struct Answer {
  std::string status, memory, body;
  int live = 0;
  bool ok() const { return status == "ok"; }
};
static bool get(std::string& s, size_t n) {
  s.resize(n);
  for (size_t k = 0; k < n;) {
    ssize_t r = read(g_out, &s[k], n - k);
    if (r <= 0) return false;
    k += r;
  }
  return true;
}
static bool put(const void* p, size_t n) {
  for (size_t k = 0; k < n;) {
    ssize_t r = write(g_in, (const char*)p + k, n - k);
    if (r <= 0) return false;
    k += r;
  }
  return true;
}
static std::string line(std::string& s) {
  auto p = s.find('\n');
  if (p == std::string::npos) vh::fail("protocol", "malformed answer");
  std::string l = s.substr(0, p);
  s.erase(0, p + 1);
  return l;
}
static Answer call(char cmd, const Bytes& d) {
  if (g_pid < 0) start();
  uint32_t n = d.size();
  std::string s;
  if (!put(&cmd, 1) || !put(&n, 4) || !put(d.data(), n) || !get(s, 4) || (memcpy(&n, s.data(), 4), !get(s, n))) {
    int st = 0;
    waitpid(g_pid, &st, 0);
    g_pid = -1;
    close(g_in), close(g_out);
    vh::fail("crash", "the Python process ended (%s %d)", WIFSIGNALED(st) ? "signal" : "exit code", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
  }
  vh::transition();
  Answer a;
  a.status = line(s).substr(7), a.memory = line(s).substr(7), a.live = atoi(line(s).substr(5).c_str());
  a.body = std::move(s);
  if (a.memory != "-") vh::fail("memory", "%s", a.memory.c_str());
  return a;
}
static int g_live = 0;
static void fresh(const char* limit = "0 -1") {
  auto a = call('N', Bytes(limit, limit + strlen(limit)));
  if (!a.ok()) vh::fail("construction", "no decoder can be created: %s", a.status.c_str());
  g_live = a.live;
}
static std::string hex(const std::string& s) {
  std::string r;
  for (unsigned char c : s) r += vh::fmt("%02x", c);
  return r.empty() ? "-" : r;
}
static const char* np(FT t) {
  switch (t) {
    case FT::INT8: return "|i1";
    case FT::UINT8: return "|u1";
    case FT::INT16: return "<i2";
    case FT::UINT16: return "<u2";
    case FT::INT32: return "<i4";
    case FT::UINT32: return "<u4";
    case FT::INT64: return "<i8";
    case FT::UINT64: return "<u8";
    case FT::FLOAT32: return "<f4";
    default: return "<f8";
  }
}
struct Stream {
  EncodingInfo info;
  Bytes cloud, data, message;
};
static Stream make(const EncodingInfo& info, const Bytes& cloud, bool binary = false, bool big = false, int tag = 0) {
  Stream s{info, cloud, enc_fresh(info, cloud), {}};
  if (binary) {
    ConstBufferView v(s.data.data(), s.data.size());
    DecodeHeader(v);
    Bytes h;
    EncodeHeader(info, h, HeaderEncoding::BINARY);
    h.insert(h.end(), v.data(), v.data() + v.size());
    s.data = h;
  }
  auto m = cdr::from_layout(big, std::string(tag % 6, 'f'), info.height, info.width, info.fields, info.point_step, s.data);
  m.format = "cloudini", m.sec = tag, m.nsec = 5;
  s.message = cdr::write(m);
  return s;
}
// the header dictionary in its canonical spelling
static std::string take_header(std::string& body, const EncodingInfo& i) {
  std::map<std::string, std::string> got;
  std::vector<std::string> fields;
  while (body.rfind("h ", 0) == 0 || body.rfind("f ", 0) == 0) {
    std::string l = line(body);
    if (l[0] == 'f') fields.push_back(l.substr(2));
    else got[l.substr(2, l.find(' ', 2) - 2)] = l.substr(l.find(' ', 2) + 1);
  }
  auto want = [&](const char* k, const std::string& v) {
    if (got[k] != v) vh::fail("header", "header['%s'] is '%s' instead of '%s'", k, got[k].c_str(), v.c_str());
  };
  want("width", "int " + std::to_string(i.width)), want("height", "int " + std::to_string(i.height)), want("point_step", "int " + std::to_string(i.point_step));
  want("version", "int " + std::to_string(i.version)), want("encoding_opt", std::string("str ") + ToString(i.encoding_opt)), want("compression_opt", std::string("str ") + ToString(i.compression_opt));
  if (fields.size() != i.fields.size()) vh::fail("header", "%zu fields instead of %zu", fields.size(), i.fields.size());
  for (size_t k = 0; k < fields.size(); k++) {
    auto& f = i.fields[k];
    const std::string w = hex(f.name) + " " + std::to_string(f.offset) + " " + ToString(f.type) + " ";
    if (fields[k].rfind(w, 0)) vh::fail("header", "field %zu of the header is '%s' instead of '%s'", k, fields[k].c_str(), w.c_str());
    const std::string r = fields[k].substr(w.size());
    if (f.resolution ? !((r.rfind("float ", 0) == 0 || r.rfind("int ", 0) == 0) && float(atof(r.c_str() + r.find(' '))) == *f.resolution) : r != "NoneType None") vh::fail("header", "the resolution of field '%s' is %s instead of %g", f.name.c_str(), r.c_str(), f.resolution.value_or(-1));
  }
  return "";
}
static void check_points(std::string body, const Stream& s) {
  const auto d = dec_full(s.data, 0);
  const size_t n = size_t(s.info.width) * s.info.height;
  const std::string first = line(body), w = vh::fmt("array %u 1 %zu", s.info.point_step, n);
  if (first != w) vh::fail("shape", "the result is '%s' instead of '%s'", first.c_str(), w.c_str());
  std::map<std::string, std::tuple<std::string, uint32_t, std::string>> got;
  while (true) {
    std::string l = line(body);
    if (l == "end") break;
    if (l.rfind("field ", 0)) vh::fail("shape", "the result has no named fields");
    std::istringstream is(l.substr(6));
    std::string name, ty;
    uint32_t off;
    size_t len;
    is >> name >> ty >> off >> len;
    got[name] = {ty, off, body.substr(0, len)};
    body.erase(0, len);
  }
  if (got.size() != s.info.fields.size()) vh::fail("fields", "%zu named fields instead of %zu", got.size(), s.info.fields.size());
  for (auto& f : s.info.fields) {
    auto it = got.find(hex(f.name));
    if (it == got.end()) vh::fail("fields", "the field '%s' is missing", f.name.c_str());
    auto& [ty, off, data] = it->second;
    if (ty != np(f.type) || off != f.offset) vh::fail("fields", "the field '%s' has type %s at %u instead of %s at %u", f.name.c_str(), ty.c_str(), off, np(f.type), f.offset);
    const size_t z = size_of(f.type);
    if (data.size() != n * z) vh::fail("points", "field '%s' has %zu bytes instead of %zu", f.name.c_str(), data.size(), n * z);
    for (size_t p = 0; p < n; p++)
      if (memcmp(&data[p * z], &d.data[p * s.info.point_step + f.offset], z)) vh::fail("points", "point %zu, field '%s' differs", p, f.name.c_str());
  }
}
static void good(const Stream& s, char cmd = 'D') {
  auto a = call(cmd, s.message);
  if (!a.ok()) vh::fail("refused", "a legal message is refused: %s", a.status.c_str());
  take_header(a.body, s.info);
  if (cmd == 'D') check_points(a.body, s);
  if (a.live != g_live) vh::fail("leak", "%d blocks of memory are in use instead of %d", a.live, g_live);
  vh::state_bytes(s.message.data(), s.message.size());
  vh::validated();
}
static void bad(const Bytes& m) {
  auto a = call('D', m);
  if (a.ok()) vh::fail("accepted", "an incomplete message is accepted");
  if (a.live != g_live) vh::fail("leak", "%d blocks of memory are in use instead of %d after an error", a.live, g_live);
  vh::validated();
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  const bool T = vh::thorough();
  signal(SIGPIPE, SIG_IGN);
  const auto configs = all_configs({3, 4, 5}, false);
  static const std::pair<uint32_t, uint32_t> dims[] = {{1, 1}, {1, 5}, {3, 2}, {1, 300}, {0, 5}, {1, 0}};
  // (1) field lists x layouts x dimensions x configurations
  for (int len = 1; len <= (T ? 3 : 2); len++)
    vh::odometer(std::vector<int>(len, int(kKinds.size())), [&](const std::vector<int>& kinds) {
      vh::run_case_l([&] { return "lists/" + lname(kinds); }, [&] {
        fresh();
        int n = 0;
        for (auto& c : configs) {
          for (int packing = 0; packing < 3; packing++)
            for (auto& [h, w] : dims) {
              if (n++ % (len == 1 || (T && len == 2) ? 1 : 7)) continue;
              uint32_t step;
              auto f = layout(kinds, packing, step);
              auto info = make_info(c, f, step, w, h);
              good(make(info, make_cloud(size_t(w) * h, f, step, n % 3), n % 4 == 1, n % 5 == 2, n), n % 3 ? 'D' : 'D');
            }
        }
      });
    });
  // (2) names
  static const char* names[] = {"x", "intensity", "a b", "123", "1.5", "null", "None", "true", "a:b", "a: b", ":", "- name: q", "-", "fields:", "fields: 3", "# c", "a#b", "\"q\"", "\"", "a\"b", "'s'", "\\", "\\n", "a\\\"", "\xc3\xbc", " lead", "trail ", "\ttab",
                                "tab\t", "a\tb", "new\nline", "\n", "\r", "a\rb", "offset", "offset: 7", "name", "~", "{a}", "[1]", "|", ">", "&a", "*a", "!t", "%d", "\xc2\xa0", "a\xc2\xa0", "\xc2\x85z", "\xe2\x80\xa8", "type: INT8", "width", "e", "1e5", "0x10", "inf", "nan", "\x0b", "\x1f", "z\x1c"};
  for (auto a : names)
    vh::run_case_l([&] { return "names/" + hex(a); }, [&] {
      fresh();
      int n = 0;
      for (auto b : names) {
        if (!strcmp(a, b)) continue;
        std::vector<PointField> f{{a, 0, FT::FLOAT32, 0.01f}, {b, 4, FT::UINT64, {}}};
        n++;
        auto info = make_info({3 + n % 3, EncodingOptions(n % 3), CompressionOption(n % 2), false}, f, 12, 3, 1);
        good(make(info, make_cloud(3, f, 12, n % 3), n % 2));
      }
    });
  // (3) many fields and long names (large headers)
  for (int n : {2, 10, 60, 70, 200, 1000})
    for (int len : {3, 30, 300})
      vh::run_case(vh::fmt("many/%d/%d", n, len), [&] {
        if (n * len > 100000) return;
        fresh();
        for (int binary = 0; binary < 2; binary++)
          for (int odd = 0; odd < 3; odd++) {
            std::vector<PointField> f;
            for (int i = 0; i < n; i++) f.push_back({(odd == 1 ? "\"" : odd == 2 ? "\n" : "") + std::to_string(i) + std::string(len, odd == 1 ? '"' : odd == 2 ? '\n' : 'n'), uint32_t(4 * i), i % 2 ? FT::FLOAT32 : FT::INT32, i % 4 == 1 ? std::optional<float>(1.2345678e-12f) : std::nullopt});
            for (uint32_t w : {0u, 1u, 3u}) {
              auto info = make_info({5 - n % 3, EncodingOptions::LOSSLESS, CompressionOption::ZSTD, false}, f, 4 * n, w, 1);
              good(make(info, make_cloud(w, f, 4 * n, 1), binary));
            }
          }
      });
  // (4) clouds around the size of the prepared memory (32 MB)
  for (int k = 0; k < 6; k++)
    vh::run_case(vh::fmt("large/%d", k), [&] {
      static const size_t sizes[] = {(32u << 20) / 16 - 1, (32u << 20) / 16, (32u << 20) / 16 + 1, (33u << 20) / 16, 3000000, 5000000};
      std::vector<PointField> f{{"x", 0, FT::FLOAT32, 0.01f}, {"y", 4, FT::FLOAT32, 0.01f}, {"z", 8, FT::FLOAT32, 0.01f}, {"i", 12, FT::UINT32, {}}};
      auto info = make_info({5, EncodingOptions::LOSSY, CompressionOption::ZSTD, false}, f, 16, uint32_t(sizes[k]), 1);
      Bytes cloud(sizes[k] * 16);
      for (size_t p = 0; p < sizes[k]; p++)
        for (int i = 0; i < 4; i++) {
          float v = float(p % 1000) * (i + 1);
          if (i < 3) put<float>(cloud, p * 16 + 4 * i, v);
          else put<uint32_t>(cloud, p * 16 + 12, uint32_t(p));
        }
      auto big = make(info, cloud);
      auto tiny = make_info({4, EncodingOptions::LOSSY, CompressionOption::LZ4, false}, f, 16, 5, 1);
      auto small = make(tiny, make_cloud(5, f, 16, 0));
      fresh();
      good(small), good(big), good(small);
      if (!call('K', {}).ok()) vh::fail("kept", "an earlier result changed");
      // not enough memory: an error, nothing else
      fresh("60000000 -1");
      auto a = call('D', big.message);
      if (a.ok()) take_header(a.body, big.info), check_points(a.body, big);
      if (a.live != g_live) vh::fail("leak", "%d blocks of memory are in use instead of %d", a.live, g_live);
      good(small);
    });
  // (5) histories on one decoder
  {
    std::vector<PointField> a{{"x", 0, FT::FLOAT32, 0.01f}, {"y", 4, FT::FLOAT32, 0.01f}, {"z", 8, FT::FLOAT32, 0.01f}}, b{{"id", 3, FT::INT64, {}}, {"t", 11, FT::FLOAT64, {}}}, c{{"k", 0, FT::UINT8, {}}};
    const Stream s[] = {make(make_info(configs[0], a, 12, 40, 1), make_cloud(40, a, 12, 0)), make(make_info(configs.back(), a, 16, 3, 2), make_cloud(6, a, 16, 1), true), make(make_info(configs[7], b, 20, 7, 1), make_cloud(7, b, 20, 2), false, true), make(make_info(configs[11], c, 1, 0, 1), {}),
                        make(make_info(configs[20 % configs.size()], c, 1, 33000, 1), make_cloud(33000, c, 1, 0))};
    Bytes cut = s[0].message, magic = s[0].message;
    {
      auto m = cdr::from_layout(false, "", 1, 40, a, 12, Bytes(s[0].data.begin(), s[0].data.end() - 9));
      m.format = "cloudini";
      cut = cdr::write(m);
      m.data = s[0].data, m.data[3] ^= 1;
      magic = cdr::write(m);
    }
    for (int first = 0; first < 8; first++)
      vh::run_case(vh::fmt("histories/%d", first), [&] {
        all_sequences(8, 0, T ? 4 : 3, [&](const std::vector<int>& rest) {
          std::vector<int> ops{first};
          ops.insert(ops.end(), rest.begin(), rest.end());
          fresh();
          for (int o : ops) {
            if (o < 5) good(s[o]);
            else if (o == 5) bad(cut);
            else if (o == 6) bad(magic);
            else good(s[2], 'H');
          }
          if (!call('K', {}).ok()) vh::fail("kept", "a result changed when a later message was decoded");
          vh::validated();
        });
      });
  }
  // (6) incomplete messages: every truncation; an error or (if only the end of the message is missing) the points
  for (int k = 0; k < 4; k++)
    vh::run_case(vh::fmt("truncated/%d", k), [&] {
      std::vector<PointField> a{{"x", 0, FT::FLOAT32, 0.01f}, {"y", 4, FT::FLOAT32, 0.01f}, {"z", 8, FT::FLOAT32, 0.01f}, {"ring", 12, FT::UINT16, {}}};
      auto s = make(make_info({3 + k % 3, EncodingOptions::LOSSY, CompressionOption(k % 3), false}, a, 14, 20, 1), make_cloud(20, a, 14, 0), k & 1);
      fresh();
      for (size_t n = 0; n < s.message.size(); n++) {
        Bytes m(s.message.begin(), s.message.begin() + n);
        auto r = call('D', m);
        if (r.ok()) {
          if (n + 24 < s.message.size()) vh::fail("accepted", "an incomplete message (%zu of %zu bytes) is accepted", n, s.message.size());
          take_header(r.body, s.info), check_points(r.body, s);
        }
        if (r.live != g_live) vh::fail("leak", "%d blocks of memory are in use instead of %d after an error", r.live, g_live);
        vh::validated();
      }
    });
  // (7) every allocation fails once: an error or the points, and all memory is released
  for (int k = 0; k < 5; k++)
    vh::run_case(vh::fmt("allocations/%d", k), [&] {
      std::vector<PointField> a{{"x", 0, FT::FLOAT32, 0.01f}, {"y", 4, FT::FLOAT32, 0.01f}, {"z", 8, FT::FLOAT32, 0.01f}, {"pad", 1000, FT::UINT16, {}}};
      const uint32_t w = k == 4 ? 40000 : k;  // the last cloud needs its own memory
      auto s = make(make_info({3 + k % 3, EncodingOptions::LOSSY, CompressionOption::ZSTD, false}, a, 1002, w, 1), make_cloud(w, a, 1002, 0), k & 1);
      auto other = make(make_info({4, EncodingOptions::LOSSLESS, CompressionOption::LZ4, false}, a, 1002, 3, 1), make_cloud(3, a, 1002, 1));
      int refused = 0;
      for (int i = 0; i < 8; i++) {
        // while the decoder is created
        const std::string p = "0 " + std::to_string(i);
        auto c = call('N', Bytes(p.begin(), p.end()));
        if (!c.ok()) {
          refused++;
          if (call('D', s.message).ok()) vh::fail("construction", "a decoder exists although it was refused");
        }
        else
          for (auto m : {&other, &s, &other}) {
            auto r = call('D', m->message);
            if (r.ok()) take_header(r.body, m->info), check_points(r.body, *m);
            else refused++;
          }
        // while a message is decoded
        for (char cmd : {'D', 'H'}) {
          fresh();
          good(other);
          call('F', Bytes(1, '0' + i));
          auto r = call(cmd, s.message);
          if (!r.ok()) refused++;
          else {
            take_header(r.body, s.info);
            if (cmd == 'D') check_points(r.body, s);
          }
          if (r.live != g_live) vh::fail("leak", "%d blocks of memory are in use instead of %d after an allocation failed", r.live, g_live);
          call('F', {'-', '1'});
          good(s), good(other);
        }
      }
      if (!refused) vh::fail("harness", "no allocation failed");
    });
  stop();
  return vh::finish();
}
