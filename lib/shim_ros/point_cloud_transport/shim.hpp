#pragma once
#include <functional>
#include <map>
#include <optional>
#include <string>

#include "rclcpp/rclcpp.hpp"
#include "ros_msgs.hpp"
namespace cras {
template <class E>
struct unexpected_t {
  E e;
};
template <class E>
inline unexpected_t<std::decay_t<E>> make_unexpected(E&& e) {
  return {std::forward<E>(e)};
}
template <class T, class E>
class expected {
 public:
  template <class U, class = std::enable_if_t<std::is_constructible_v<T, U&&> && !std::is_same_v<std::decay_t<U>, expected>>>
  expected(U&& u) : v_(std::in_place, std::forward<U>(u)) {}
  template <class U>
  expected(const unexpected_t<U>& u) : e_(u.e) {}
  bool has_value() const { return v_.has_value(); }
  explicit operator bool() const { return has_value(); }
  const T& value() const { return v_.value(); }
  T& value() { return v_.value(); }
  const T& operator*() const { return *v_; }
  const T* operator->() const { return &*v_; }
  const E& error() const { return e_; }

 private:
  std::optional<T> v_;
  E e_{};
};
}  // namespace cras
namespace point_cloud_transport {
// parameters of a plugin: declared values and the callback for changes
class ShimParams {
 public:
  using Callback = std::function<rcl_interfaces::msg::SetParametersResult(const std::vector<rclcpp::Parameter>&)>;
  std::map<std::string, rclcpp::Parameter> params;
  Callback on_change;

 protected:
  template <class T>
  bool declareParam(const std::string& n, const T& dflt, const rcl_interfaces::msg::ParameterDescriptor& = {}) {
    if (!params.count(n)) params[n] = rclcpp::Parameter(n, dflt);
    return true;
  }
  template <class T>
  bool getParam(const std::string& n, T& v) const {
    if (!params.count(n)) return false;
    v = params.at(n).template get_value<T>();
    return true;
  }
  template <class Fn>
  void setParamCallback(Fn&& f) {
    on_change = f;
  }
};
template <class M>
class SimplePublisherPlugin : public ShimParams {
 public:
  using EncodeResult = cras::expected<std::optional<M>, std::string>;
  using TypedEncodeResult = cras::expected<std::optional<M>, std::string>;
  virtual ~SimplePublisherPlugin() = default;
  virtual std::string getTransportName() const = 0;
  virtual std::string getDataType() const = 0;
  virtual void declareParameters(const std::string& base_topic) = 0;
  virtual TypedEncodeResult encodeTyped(const sensor_msgs::msg::PointCloud2& raw) const = 0;
};
template <class M>
class SimpleSubscriberPlugin : public ShimParams {
 public:
  using DecodeResult = cras::expected<std::optional<sensor_msgs::msg::PointCloud2::ConstSharedPtr>, std::string>;
  virtual ~SimpleSubscriberPlugin() = default;
  virtual std::string getTransportName() const = 0;
  virtual std::string getDataType() const = 0;
  virtual void declareParameters() = 0;
  virtual DecodeResult decodeTyped(const M&) const = 0;
};
class TransportHints {};
}  // namespace point_cloud_transport
