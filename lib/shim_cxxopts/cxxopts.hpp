// Stand-in for cxxopts: the same interface, only what command line tools need.
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

namespace cxxopts {
namespace exceptions {
struct exception : std::runtime_error {
  using std::runtime_error::runtime_error;
};
}  // namespace exceptions
struct Value : std::enable_shared_from_this<Value> {
  bool flag = false, has_default = false, has_implicit = false;
  std::string def, imp;
  std::shared_ptr<Value> default_value(const std::string& s) {
    has_default = true, def = s;
    return shared_from_this();
  }
  std::shared_ptr<Value> implicit_value(const std::string& s) {
    has_implicit = true, imp = s;
    return shared_from_this();
  }
};
template <class T>
std::shared_ptr<Value> value() {
  auto v = std::make_shared<Value>();
  v->flag = std::is_same_v<T, bool>;
  return v;
}
struct OptionValue {
  std::string s;
  size_t n = 0;
  bool set = false;
  template <class T>
  T as() const {
    if (!set) throw exceptions::exception("option has no value");
    if constexpr (std::is_same_v<T, std::string>) return s;
    else if constexpr (std::is_same_v<T, bool>) return s == "true" || s == "1" || s.empty();
    else {
      std::istringstream i(s);
      T v{};
      if (!(i >> v) || !i.eof()) throw exceptions::exception("argument '" + s + "' failed to parse");
      return v;
    }
  }
  size_t count() const { return n; }
};
struct ParseResult {
  std::map<std::string, std::shared_ptr<OptionValue>> m;
  size_t count(const std::string& k) const { return m.count(k) ? m.at(k)->n : 0; }
  bool contains(const std::string& k) const { return count(k) > 0; }
  const OptionValue& operator[](const std::string& k) const {
    if (!m.count(k)) throw exceptions::exception("option '" + k + "' does not exist");
    return *m.at(k);
  }
};
class Options {
  struct Opt {
    std::string s, l;
    std::shared_ptr<Value> v;
  };
  std::string name_, desc_;
  std::vector<Opt> o_;
  std::vector<std::string> pos_;

 public:
  explicit Options(std::string n, std::string d = "") : name_(n), desc_(d) {}
  struct Adder {
    Options& o;
    Adder& operator()(const std::string& names, const std::string& = "", std::shared_ptr<Value> v = nullptr, const std::string& = "") {
      auto c = names.find(',');
      std::string a = names.substr(0, c), b = c == std::string::npos ? "" : names.substr(c + 1);
      while (!b.empty() && b[0] == ' ') b.erase(0, 1);
      if (b.empty() && a.size() > 1) std::swap(a, b);
      if (!v) v = std::make_shared<Value>(), v->flag = true;
      o.o_.push_back({a, b, v});
      return *this;
    }
  };
  Adder add_options(const std::string& = "") { return {*this}; }
  Options& positional_help(const std::string&) { return *this; }
  Options& custom_help(const std::string&) { return *this; }
  Options& show_positional_help() { return *this; }
  void parse_positional(std::vector<std::string> p) { pos_ = p; }
  std::string help(const std::vector<std::string>& = {}) const { return desc_ + "\nUsage: " + name_ + " [OPTION...]\n"; }
  ParseResult parse(int argc, const char* const* argv) {
    ParseResult r;
    for (auto& o : o_) {
      auto v = std::make_shared<OptionValue>();
      if (o.v->has_default) v->s = o.v->def, v->set = true;
      for (auto& k : {o.s, o.l})
        if (!k.empty()) r.m[k] = v;
    }
    auto find = [&](const std::string& k) -> Opt& {
      for (auto& o : o_)
        if (!k.empty() && (o.s == k || o.l == k)) return o;
      throw exceptions::exception("Option '" + k + "' does not exist");
    };
    size_t np = 0;
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      auto give = [&](const std::string& k, const std::string* val) {
        auto& o = find(k);
        auto& v = *r.m[o.l.empty() ? o.s : o.l];
        v.n++, v.set = true;
        if (val) v.s = *val;
        else if (o.v->flag) v.s = "true";
        else if (o.v->has_implicit) v.s = o.v->imp;
        else if (i + 1 < argc) v.s = argv[++i];
        else throw exceptions::exception("Option '" + k + "' is missing an argument");
      };
      if (a.size() > 2 && a[0] == '-' && a[1] == '-') {
        auto e = a.find('=');
        std::string val = e == std::string::npos ? "" : a.substr(e + 1);
        give(a.substr(2, e == std::string::npos ? e : e - 2), e == std::string::npos ? nullptr : &val);
      } else if (a.size() > 1 && a[0] == '-') {
        for (size_t k = 1; k < a.size(); k++) {
          auto& o = find(std::string(1, a[k]));
          if (!o.v->flag && k + 1 < a.size()) {
            std::string val = a.substr(k + 1);
            give(std::string(1, a[k]), &val);
            break;
          }
          give(std::string(1, a[k]), nullptr);
        }
      } else if (np < pos_.size())
        give(pos_[np++], &a);
    }
    return r;
  }
};
}  // namespace cxxopts
