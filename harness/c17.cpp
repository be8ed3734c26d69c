// C17: resolution profiles.
#include "cdr.hpp"
#include "cloudini_lib/ros_msg_utils.hpp"
#include "gen.hpp"
using namespace cl;
using cloudini_ros::ResolutionProfile;

static std::vector<PointField> expect(const ResolutionProfile& p, const std::vector<PointField>& in, std::optional<float> def) {
  std::vector<PointField> out;
  for (auto f : in) {
    auto it = p.find(f.name);
    if (it != p.end()) {
      if (it->second == 0) continue;
      f.resolution = it->second;
    } else if (def && f.type == FT::FLOAT32)
      f.resolution = def;
    out.push_back(f);
  }
  return out;
}
static std::string show(const ResolutionProfile& p, const std::vector<PointField>& f) {
  std::string s = "fields";
  for (auto& x : f) s += vh::fmt(" %s:%s%s", x.name.c_str(), tname(x.type), x.resolution ? "r" : "");
  s += "; profile";
  for (auto& [k, v] : p) s += vh::fmt(" %s=%g", k.c_str(), v);
  return s;
}
static void apply(const ResolutionProfile& p, std::vector<PointField> f, std::optional<float> def, std::vector<PointField>* out = nullptr) {
  const auto in = f;
  const auto want = expect(p, in, def);
  cloudini_ros::applyResolutionProfile(p, f, def);
  vh::transition();
  if (f.size() != want.size()) vh::fail("removed", "%s, default %g: %zu fields are left instead of %zu", show(p, in).c_str(), def.value_or(-1), f.size(), want.size());
  for (size_t i = 0; i < f.size(); i++)
    if (!(f[i] == want[i])) vh::fail("field", "%s, default %g: field %zu is '%s' at %u, resolution %g; expected '%s' at %u, resolution %g", show(p, in).c_str(), def.value_or(-1), i, f[i].name.c_str(), f[i].offset,
                                     f[i].resolution.value_or(-1), want[i].name.c_str(), want[i].offset, want[i].resolution.value_or(-1));
  vh::validated();
  if (out) *out = f;
}

int main(int argc, char** argv) {
  vh::init(argc, argv);
  const bool T = vh::thorough();
  // (1) all lists of up to 4 fields x all profiles
  static const char* names[] = {"x", "intensity", "X", ""};
  static const std::optional<float> vals[] = {std::nullopt, 0.f, 0.001f, 1e6f, -0.5f};
  const std::vector<FT> types = T ? std::vector<FT>(std::begin(kAllTypes), std::end(kAllTypes)) : std::vector<FT>{FT::FLOAT32, FT::FLOAT64, FT::UINT16};
  const int nt = (int)types.size();
  // one case per list of names
  all_sequences(4, 0, 4, [&](const std::vector<int>& nm) {
    vh::run_case_l([&] {
      std::string s = "fields";
      for (int i : nm) s += std::string("/") + names[i];
      return s; }, [&] {
      // all lists of 4 with every type only in the thorough tier
      std::vector<std::vector<int>> tl;
      if (nm.size() <= 3 || !T) {
        vh::odometer(std::vector<int>(nm.size(), nt), [&](const std::vector<int>& t) { tl.push_back(t); });
      } else {
        for (int a = 0; a < nt; a++)
          for (int b = 0; b < nt; b++) tl.push_back({a, b, (a + b) % nt, (a * 3 + b) % nt});
      }
      for (auto& t : tl) {
        std::vector<PointField> f;
        for (size_t i = 0; i < nm.size(); i++)
          f.push_back({names[nm[i]], uint32_t(i * 8 + 3), types[t[i]], (t[i] + nm[i] + i) % 2 ? std::optional<float>(0.5f * (1 + i)) : std::nullopt});
        for (int v0 = 0; v0 < 5; v0++)
          for (int v1 = 0; v1 < 4; v1++)
            for (int v2 = 0; v2 < 4; v2++)
              for (int v3 = 0; v3 < 2; v3++)
                for (int d = 0; d < 4; d++) {
                  ResolutionProfile p;
                  if (vals[v0]) p["x"] = *vals[v0];
                  if (vals[v1]) p["intensity"] = *vals[v1];
                  if (vals[v2]) p["X"] = v3 ? -*vals[v2] * (v2 == 1) + *vals[v2] : *vals[v2];  // also -0
                  if (v3) p["not there"] = v0 == 1 ? 0.5f : 0.f;
                  if (v3 && v1 == 2) p[""] = 0.25f;
                  apply(p, f, d == 0 ? std::nullopt : std::optional<float>(d == 1 ? 0.01f : d == 2 ? 3.f : v3 ? 0.f : -1.f));
                }
        vh::state_bytes(f.data(), 0);
      }
      vh::beat();
    });
  });
  // (1b) every magnitude of a resolution: all powers of two that a float can hold, and their neighbours; only zero removes
  for (auto t : kAllTypes)
    for (int pos = 0; pos < 3; pos++)
      vh::run_case(vh::fmt("magnitude/%s/%d", tname(t), pos), [&] {
        for (uint32_t e = 0; e < 0x7F800000u; e += T ? 0x00100000u : 0x00400000u)
          for (int d = -1; d <= 1; d++) {
            if (e + d >= 0x7F800000u) continue;
            const float v = std::bit_cast<float>(e + d);
            std::vector<PointField> f{{"x", 0, FT::FLOAT32, {}}, {"y", 4, FT::UINT16, {}}, {"z", 6, FT::FLOAT32, 0.5f}};
            f[pos].type = t;
            for (int def = 0; def < 3; def++) {
              const std::optional<float> dv = def == 0 ? std::nullopt : std::optional<float>(def == 1 ? 0.25f : v);
              if (def == 2 && v == 0) continue;
              apply({{f[pos].name, v}}, f, dv);
              apply({{f[pos].name, v}, {f[(pos + 1) % 3].name, 0.f}}, f, dv);
              apply({{"other", v}}, f, dv);
            }
            vh::state_bytes(&v, 4);
          }
      });
  // (1c) many fields, many entries: every residue class is removed or described
  for (int nf : wide_counts(T))
    vh::run_case(vh::fmt("many-fields/%d", nf), [&] {
      for (int mod : {1, 2, 3, 7, 64, 255, 300})
        for (int res = 0; res < std::min(mod, 8); res++)
          for (int rest = 0; rest < 3; rest++)
            for (int rot = 0; rot < 2; rot++) {
              uint32_t step;
              auto f = layout(wide_kinds(nf, rot), rot, step, 0.5f);
              ResolutionProfile p;
              for (int i = 0; i < nf; i++)
                if (i % mod == res) p[f[i].name] = 0.f;
                else if (rest) p[f[i].name] = rest == 1 ? 0.125f * i : 3.f;
              std::vector<PointField> left;
              for (int def = 0; def < 2; def++) apply(p, f, def ? std::optional<float>(0.125f) : std::nullopt, &left);
              if (left.empty() || rest != 0) continue;
              const Bytes cloud = make_cloud(5, f, step, 1);
              auto info = make_info(Config{5, EncodingOptions::LOSSY, CompressionOption(nf % 3), false}, left, step, 5);
              auto d = dec_full(enc_fresh(info, cloud));
              if (d.info.fields != left) vh::fail("header", "the header does not list the remaining fields");
              check_cloud(Config{5, EncodingOptions::LOSSY, CompressionOption(nf % 3), false}, info, cloud, d.data, 0xCD, "reduced cloud");
              vh::validated();
            }
    });
  // (2) end to end: every subset of removed fields, in every layout and configuration
  std::vector<std::vector<int>> lays{{0, 0, 0, 6}, {0, 0, 0, 0, 5}, {8, 0, 0, 0}, {0, 3, 2, 10}, {1, 1, 1, 4}, {5, 6, 9, 11}, {2, 0, 0, 0, 0}};
  for (int a = 0; a < 12; a++)
    for (int b = 0; b < 12; b++) lays.push_back({a, b});
  for (auto& c : all_configs({3, 4, 5}, false))
    for (size_t l = 0; l < lays.size(); l++) {
      if (!T && l >= 7 && (l + c.version + int(c.enc) + int(c.comp)) % 3) continue;
      vh::run_case_l([&] { return vh::fmt("decode/%s/%s", c.str().c_str(), lname(lays[l]).c_str()); }, [&] {
        const int n = (int)lays[l].size();
        for (int packing = 0; packing < 3; packing++)
          for (unsigned gone = 0; gone + 1 < (1u << n); gone++)  // at least one field stays
            for (int def = 0; def < 2; def++)
              for (size_t pts : {1, 5, 70}) {
                uint32_t step;
                auto f = layout(lays[l], packing, step, 0.25f);
                ResolutionProfile p;
                for (int i = 0; i < n; i++)
                  if (gone >> i & 1) p[f[i].name] = 0;
                  else if ((gone + i) % 3 == 0) p[f[i].name] = 0.5f;
                std::vector<PointField> left;
                apply(p, f, def ? std::optional<float>(0.125f) : std::nullopt, &left);
                const Bytes cloud = make_cloud(pts, f, step, int(gone + pts) % 3);
                auto info = make_info(c, left, step, uint32_t(pts));
                auto d = dec_full(enc_fresh(info, cloud));
                if (d.info.fields != left) vh::fail("header", "the header does not list the remaining fields");
                check_cloud(c, info, cloud, d.data, 0xCD, "reduced cloud");
                vh::state_bytes(d.data.data(), d.data.size());
                vh::validated();
                // the same through a message
                if (pts == 5) {
                  const Bytes raw = cdr::write(cdr::from_layout(gone & 1, "m", 1, uint32_t(pts), f, step, cloud));
                  auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(raw.data(), raw.size()));
                  for (int i = 0; i < n; i++) pc.fields[i].resolution = f[i].resolution;
                  cloudini_ros::applyResolutionProfile(p, pc.fields, def ? std::optional<float>(0.125f) : std::nullopt);
                  auto mi = cloudini_ros::toEncodingInfo(pc);
                  mi.version = c.version;
                  mi.encoding_opt = c.enc;
                  mi.compression_opt = c.comp;
                  Bytes packed, plain;
                  cloudini_ros::convertPointCloud2ToCompressedCloud(pc, mi, packed);
                  auto k = cdr::read(packed, true);
                  auto e = dec_full(k.data);
                  if (e.info.fields != left || k.fields.size() != left.size()) vh::fail("message", "the message does not list the remaining fields");
                  for (size_t i = 0; i < left.size(); i++)
                    if (k.fields[i].name != left[i].name || k.fields[i].offset != left[i].offset || k.fields[i].type != uint8_t(left[i].type)) vh::fail("message", "field %zu of the message is wrong", i);
                  check_cloud(c, mi, cloud, e.data, 0xCD, "reduced message");
                  auto pk = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(packed.data(), packed.size()));
                  cloudini_ros::convertCompressedCloudToPointCloud2(pk, plain);
                  auto r = cdr::read(plain, false);
                  if (r.fields.size() != left.size()) vh::fail("message", "the restored message does not list the remaining fields");
                  check_cloud(c, mi, cloud, r.data, 0x00, "restored reduced message");
                  vh::validated();
                }
              }
        vh::beat();
      });
    }
  return vh::finish();
}
