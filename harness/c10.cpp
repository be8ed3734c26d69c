// C10: both forms of the header, compared with an independent writer and an independent reader.
#include "gen.hpp"
#include "ref.hpp"
using namespace cl;

static const char* kTypeName[] = {"UNKNOWN", "INT8", "UINT8", "INT16", "UINT16", "INT32", "UINT32", "FLOAT32", "FLOAT64", "INT64", "UINT64"};
static const char* kEncName[] = {"NONE", "LOSSY", "LOSSLESS"};
static const char* kCompName[] = {"NONE", "LZ4", "ZSTD"};

static std::string show(const EncodingInfo& i) {
  std::string s = vh::fmt("v%d %ux%u step %u opt %d comp %d", i.version, i.width, i.height, i.point_step, (int)i.encoding_opt, (int)i.compression_opt);
  for (size_t k = 0; k < i.fields.size() && k < 5; k++) {
    auto& f = i.fields[k];
    s += vh::fmt(" [%s @%u t%d %s]", vh::hex(f.name.data(), f.name.size(), 24).c_str(), f.offset, (int)f.type, f.resolution ? vh::fmt("%a", *f.resolution).c_str() : "-");
  }
  return s;
}
static bool same(const EncodingInfo& a, const EncodingInfo& b) {
  if (a.version != b.version || a.width != b.width || a.height != b.height || a.point_step != b.point_step || a.encoding_opt != b.encoding_opt || a.compression_opt != b.compression_opt ||
      a.fields.size() != b.fields.size())
    return false;
  for (size_t k = 0; k < a.fields.size(); k++) {
    auto &x = a.fields[k], &y = b.fields[k];
    if (x.name != y.name || x.offset != y.offset || x.type != y.type || x.resolution.has_value() != y.resolution.has_value()) return false;
    if (x.resolution && memcmp(&*x.resolution, &*y.resolution, 4) != 0) return false;
  }
  return true;
}

// ---- independent readers ----
struct Rd {
  const Bytes& b;
  size_t p = 0;
  uint64_t u(int n) {
    if (p + n > b.size()) throw ref::Err("short");
    uint64_t v = 0;
    for (int i = 0; i < n; i++) v |= uint64_t(b[p + i]) << 8 * i;
    p += n;
    return v;
  }
};
static EncodingInfo read_binary(const Bytes& b, size_t& used) {
  EncodingInfo i;
  Rd r{b};
  if (b.size() < 12 || memcmp(b.data(), "CLOUDINI_V", 10)) throw ref::Err("magic");
  i.version = uint8_t((b[10] - '0') * 10 + b[11] - '0');
  r.p = 12;
  i.width = (uint32_t)r.u(4);
  i.height = (uint32_t)r.u(4);
  i.point_step = (uint32_t)r.u(4);
  i.encoding_opt = EncodingOptions(r.u(1));
  i.compression_opt = CompressionOption(r.u(1));
  size_t n = r.u(2);
  for (size_t k = 0; k < n; k++) {
    PointField f;
    size_t l = r.u(2);
    for (size_t q = 0; q < l; q++) f.name += char(r.u(1));
    f.offset = (uint32_t)r.u(4);
    f.type = FT(r.u(1));
    uint32_t w = (uint32_t)r.u(4);
    float x;
    memcpy(&x, &w, 4);
    if (x > 0) f.resolution = x;
    i.fields.push_back(f);
  }
  used = r.p;
  return i;
}
static std::string strip(const std::string& s) {
  size_t a = s.find_first_not_of(" "), b = s.find_last_not_of(" ");
  return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
static std::string unquote(const std::string& s) {
  if (s.size() < 2 || s[0] != '"') return s;
  std::string o;
  for (size_t i = 1; i + 1 < s.size(); i++) {
    char c = s[i];
    if (c == '\\' && i + 2 < s.size()) {
      c = s[++i];
      if (c == 'n') c = '\n';
      else if (c == '0') c = '\0';
    }
    o += c;
  }
  return o;
}
static int index_of(const char** names, int n, const std::string& s) {
  for (int k = 0; k < n; k++)
    if (s == names[k]) return k;
  throw ref::Err("name " + s);
}
static EncodingInfo read_yaml(const Bytes& b, size_t& used) {
  if (b.size() < 13 || memcmp(b.data(), "CLOUDINI_V", 10) || b[12] != '\n') throw ref::Err("magic");
  EncodingInfo i;
  i.version = uint8_t((b[10] - '0') * 10 + b[11] - '0');
  size_t end = 13;
  while (end < b.size() && b[end]) end++;
  if (end == b.size()) throw ref::Err("no terminator");
  used = end + 1;
  std::string text(b.begin() + 13, b.begin() + end), line;
  bool in_fields = false;
  auto num = [](const std::string& s) {
    size_t q = 0;
    unsigned long v = std::stoul(s, &q);
    if (q != s.size()) throw ref::Err("number " + s);
    return (uint32_t)v;
  };
  for (size_t p = 0; p < text.size();) {
    size_t e = text.find('\n', p);
    if (e == std::string::npos) e = text.size();
    line = text.substr(p, e - p);
    p = e + 1;
    std::string t = strip(line);
    if (t.empty()) continue;
    bool item = t.rfind("- ", 0) == 0;
    if (item) t = strip(t.substr(2));
    size_t c = t.find(':');
    if (c == std::string::npos) throw ref::Err("line " + line);
    std::string k = strip(t.substr(0, c)), v = strip(t.substr(c + 1));
    if (!in_fields) {
      if (k == "version") {
        if (num(v) != i.version) throw ref::Err("two versions");
      } else if (k == "width") i.width = num(v);
      else if (k == "height") i.height = num(v);
      else if (k == "point_step") i.point_step = num(v);
      else if (k == "encoding_opt") i.encoding_opt = EncodingOptions(index_of(kEncName, 3, v));
      else if (k == "compression_opt") i.compression_opt = CompressionOption(index_of(kCompName, 3, v));
      else if (k == "encoding_config") i.encoding_config = v;
      else if (k == "fields") in_fields = true;
      else throw ref::Err("key " + k);
      continue;
    }
    if (item) i.fields.push_back({});
    if (i.fields.empty()) throw ref::Err("field");
    auto& f = i.fields.back();
    if (k == "name") f.name = unquote(v);
    else if (k == "offset") f.offset = num(v);
    else if (k == "type") f.type = FT(index_of(kTypeName, 11, v));
    else if (k == "resolution") {
      if (v != "null") f.resolution = strtof(v.c_str(), nullptr);
    } else throw ref::Err("key " + k);
  }
  return i;
}

// ---- one description, everything about it ----
static Bytes reused;
static void read_back(const EncodingInfo& i, const Bytes& header, const char* what) {
  for (size_t tail : {0, 1, 9}) {
    Bytes all = header;
    for (size_t q = 0; q < tail; q++) all.push_back(uint8_t(q % 3 ? 0x0a : 0));
    std::unique_ptr<uint8_t[]> h(new uint8_t[all.size()]);
    memcpy(h.get(), all.data(), all.size());
    ConstBufferView v(h.get(), all.size());
    EncodingInfo got;
    vh::transition();
    try {
      got = DecodeHeader(v);
    } catch (const std::exception& e) {
      vh::fail("refused", "%s header of %s is refused: %s", what, show(i).c_str(), e.what());
    }
    if (!same(i, got)) vh::fail("differs", "%s header of %s is read as %s", what, show(i).c_str(), show(got).c_str());
    if (v.size() != tail || v.data() != h.get() + header.size()) vh::fail("consumed", "%s header of %s: %zu bytes left instead of %zu", what, show(i).c_str(), v.size(), tail);
    vh::validated();
  }
}
static void check(const EncodingInfo& i, bool names_plain = true) {
  for (int form = 0; form < 2; form++) {
    const char* what = form ? "YAML" : "binary";
    try {
      EncodeHeader(i, reused, form ? HeaderEncoding::YAML : HeaderEncoding::BINARY);
    } catch (const std::exception& e) {
      vh::fail("write", "%s header of %s cannot be written: %s", what, show(i).c_str(), e.what());
    }
    vh::state_bytes(reused.data(), reused.size());
    Bytes h = reused;
    // The vector may be longer than the header by its terminator; what is read must be the header
    size_t used = 0;
    EncodingInfo ind;
    try {
      ind = form ? read_yaml(h, used) : read_binary(h, used);
    } catch (const std::exception& e) {
      vh::fail("format", "%s header of %s does not follow the documented format: %s", what, show(i).c_str(), e.what());
    }
    if (!same(i, ind)) vh::fail("format", "%s header of %s means %s according to the documented format", what, show(i).c_str(), show(ind).c_str());
    if (used != h.size()) vh::fail("length", "%s header of %s: %zu bytes after the end of the header", what, show(i).c_str(), h.size() - used);
    read_back(i, h, what);
    // written by somebody else
    if (form == 0 || names_plain) read_back(i, form ? ref::header_yaml(i) : ref::header_binary(i), form ? "independent YAML" : "independent binary");
  }
  try {
    EncodingInfo got = EncodingInfoFromYAML(EncodingInfoToYAML(i));
    if (!same(i, got)) vh::fail("yaml", "EncodingInfoFromYAML(EncodingInfoToYAML()) of %s gives %s", show(i).c_str(), show(got).c_str());
  } catch (const std::exception& e) {
    vh::fail("yaml", "EncodingInfoFromYAML(EncodingInfoToYAML()) of %s fails: %s", show(i).c_str(), e.what());
  }
}
static bool refused(const Bytes& b) {
  std::unique_ptr<uint8_t[]> h(new uint8_t[b.size()]);
  memcpy(h.get(), b.data(), b.size());
  ConstBufferView v(h.get(), b.size());
  vh::transition();
  vh::validated();
  try {
    DecodeHeader(v);
    return false;
  } catch (const std::exception&) {
    return true;
  }
}
static EncodingInfo base(int nf = 1) {
  EncodingInfo i;
  i.width = 17;
  i.height = 3;
  i.point_step = 24;
  for (int k = 0; k < nf; k++) i.fields.push_back({std::string(1, char('x' + k % 3)), uint32_t(4 * k), k % 2 ? FT::INT32 : FT::FLOAT32, k % 2 ? std::nullopt : std::optional<float>(0.001f)});
  return i;
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  const bool T = vh::thorough();
  // (1) numbers and options
  static const uint32_t num[] = {0, 1, 9, 10, 255, 256, 2570, 0x0a0a0a0a, 65535, 65536, 1000000, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu, 10 | 'v' << 8 | 'e' << 16 | 'r' << 24};
  for (int ver = 2; ver <= 5; ver++)
    for (int e = 0; e < 3; e++)
      for (int c = 0; c < 3; c++)
        vh::run_case(vh::fmt("numbers/v%d/%d/%d", ver, e, c), [&] {
          for (uint32_t w : num)
            for (uint32_t h : num)
              for (uint32_t s : num) {
                if (!T && w != num[1] && h != num[1] && (w + h + s) % 3) continue;
                EncodingInfo i = base(w % 3);
                i.version = ver;
                i.encoding_opt = EncodingOptions(e);
                i.compression_opt = CompressionOption(c);
                i.width = w;
                i.height = h;
                i.point_step = s;
                if (!i.fields.empty()) i.fields[0].offset = s ^ h;
                check(i);
              }
          vh::beat();
        });
  // (2) types, offsets, presence of resolutions, numbers of fields
  for (int t = 1; t <= 10; t++)
    vh::run_case(vh::fmt("types/%d", t), [&] {
      for (int t2 = 1; t2 <= 10; t2++)
        for (uint32_t off : num)
          for (int res = 0; res < 4; res++) {
            EncodingInfo i = base(0);
            i.fields.push_back({"first", off, FT(t), res & 1 ? std::optional<float>(0.5f) : std::nullopt});
            i.fields.push_back({"second", off / 2, FT(t2), res & 2 ? std::optional<float>(1e-3f) : std::nullopt});
            check(i);
          }
    });
  vh::run_case("fields", [&] {
    for (int n : {0, 1, 2, 3, 10, 255, 256, 300, 1000}) check(base(n));
  });
  vh::run_case("fields/65535", [&] { check(base(65535)); });
  vh::run_case("fields/too-many", [&] {
    // cannot be stored in the binary form: refused or faithful, never something else
    for (int n : {65536, 65540}) {
      EncodingInfo i = base(n);
      try {
        EncodeHeader(i, reused, HeaderEncoding::BINARY);
      } catch (const std::exception&) {
        vh::outcome("too many fields refused");
        continue;
      }
      read_back(i, reused, "binary");
    }
  });
  // (3) names
  vh::run_case("names/bytes", [&] {
    for (int a = 0; a < 256; a++)
      for (int pos = 0; pos < 5; pos++)
        for (int nf = 1; nf <= 2; nf++) {
          std::string s = pos == 0 ? "" : pos == 1 ? "ab" : pos == 2 ? "ab" : pos == 3 ? "abcd" : "  ";
          s.insert(pos == 1 ? 0 : pos == 2 ? 2 : pos == 3 ? 2 : pos == 4 ? 1 : 0, 1, char(a));
          EncodingInfo i = base(nf);
          i.fields[nf - 1].name = s;
          check(i, false);
        }
  });
  static const char al[] = {' ', '\t', '\n', '\r', '\0', '"', '\\', ':', '#', '-', '\'', 'n', '0', 'a', '~', '.'};
  for (int first = 0; first < 16; first++)
    vh::run_case(vh::fmt("names/short/%02x", al[first]), [&] {
      all_sequences(16, 0, T ? 4 : 3, [&](const std::vector<int>& d) {
        EncodingInfo i = base(2);
        i.fields[0].name = std::string(1, al[first]);
        for (int q : d) i.fields[0].name += al[q];
        check(i, false);
      });
      vh::beat();
    });
  vh::run_case("names/words", [&] {
    for (const char* w : {"", "null", "true", "- x", "version: 5", "fields:", "name", "x: y", "\"x\"", "'x'", "[1]", "{a: b}", "~", "123", "0.5", "resolution", "  - name: q", "%", "&a", "*a", "x # y", "#", "x#y"}) {
      for (int nf = 1; nf <= 3; nf++)
        for (int at = 0; at < nf; at++) {
          EncodingInfo i = base(nf);
          i.fields[at].name = w;
          check(i, false);
        }
    }
    for (size_t len : {100, 255, 256, 1000, 65534, 65535}) {
      EncodingInfo i = base(1);
      i.fields[0].name = std::string(len, 'q');
      check(i);
    }
    for (size_t len : {65536, 65537, 70000}) {
      EncodingInfo i = base(2);
      i.fields[0].name = std::string(len, 'q');
      try {
        EncodeHeader(i, reused, HeaderEncoding::BINARY);
      } catch (const std::exception&) {
        vh::outcome("name too long refused");
        continue;
      }
      read_back(i, reused, "binary");
    }
  });
  // (4) resolutions: every binary exponent and many mantissas
  for (int ex = 1; ex < 255; ex++)
    vh::run_case(vh::fmt("resolution/%d", ex), [&] {
      std::set<uint32_t> man;
      for (int b = 0; b < 23; b++)
        for (int d = -1; d <= 1; d++) {
          man.insert(((1u << b) + d) & 0x7fffff);
          man.insert((0x7fffff ^ (1u << b)) & 0x7fffff);
        }
      for (uint32_t k = 0; k < (T ? 20000u : 60u); k++) man.insert((k * 2654435761u) >> 9);
      for (uint32_t m : man) {
        uint32_t u = uint32_t(ex) << 23 | m;
        float r;
        memcpy(&r, &u, 4);
        EncodingInfo i = base(2);
        i.fields[0].resolution = r;
        check(i);
      }
      vh::beat();
    });
  vh::run_case("resolution/decimal", [&] {
    for (int e = -30; e <= 30; e++)
      for (int m = 1; m < 100; m++) {
        EncodingInfo i = base(1);
        i.fields[0].resolution = strtof(vh::fmt("%de%d", m, e).c_str(), nullptr);
        check(i);
      }
  });
  // (5) malformed headers
  vh::run_case("malformed", [&] {
    for (int nf = 0; nf <= 3; nf++)
      for (int form = 0; form < 2; form++) {
        EncodingInfo i = base(nf);
        Bytes h = form ? ref::header_yaml(i) : ref::header_binary(i);
        for (size_t n = 0; n < h.size(); n++)
          if (!refused(Bytes(h.begin(), h.begin() + n))) vh::fail("truncated", "the first %zu of %zu bytes of a header are accepted", n, h.size());
        for (size_t p = 0; p < 10; p++)
          for (int v = 0; v < 256; v++) {
            Bytes b = h;
            b[p] = uint8_t(v);
            if (v != h[p] && !refused(b)) vh::fail("magic", "a header with a wrong byte %zu is accepted", p);
          }
        for (int v = 0; v < 100; v++) {
          Bytes b = h;
          b[10] = uint8_t('0' + v / 10);
          b[11] = uint8_t('0' + v % 10);
          if (refused(b) != (v < 2 || v > 5)) vh::fail("version", "version %d is %s", v, refused(b) ? "refused" : "accepted");
        }
      }
    // a textual header without one of its lines, or with an unknown value
    EncodingInfo i = base(2);
    Bytes h = ref::header_yaml(i);
    std::string s(h.begin() + 13, h.end() - 1);
    auto all = [&](const std::string& t) {
      Bytes b(h.begin(), h.begin() + 13);
      b.insert(b.end(), t.begin(), t.end());
      b.push_back(0);
      return b;
    };
    for (const char* key : {"version", "width", "height", "point_step", "encoding_opt", "compression_opt"}) {
      size_t p = s.find(std::string(key) + ": "), e = s.find('\n', p);
      std::string t = s;
      t.erase(p, e - p + 1);
      if (std::string(key) != "version" && !refused(all(t))) vh::fail("missing", "a header without '%s' is accepted", key);
      for (const char* bad : {"", "abc", "LOSS", "-", "zstd", "99"}) {
        t = s;
        t.replace(p, e - p, std::string(key) + ": " + bad);
        bool numeric = strcmp(bad, "99") == 0 && !strstr(key, "_opt");
        if (!numeric && !refused(all(t))) vh::fail("value", "a header with '%s: %s' is accepted", key, bad);
      }
    }
    for (const char* key : {"name", "offset", "type", "resolution"}) {
      size_t p = s.find(std::string("    ") + key + ": ");
      if (p == std::string::npos) continue;
      size_t e = s.find('\n', p);
      std::string t = s;
      t.erase(p, e - p + 1);
      if (!refused(all(t))) vh::fail("missing", "a field without '%s' is accepted", key);
      for (const char* bad : {"", "abc", "FLOAT", "-"}) {
        t = s;
        t.replace(p, e - p, std::string("    ") + key + ": " + bad);
        if (!refused(all(t))) vh::fail("value", "a field with '%s: %s' is accepted", key, bad);
      }
    }
  });
  return vh::finish();
}
