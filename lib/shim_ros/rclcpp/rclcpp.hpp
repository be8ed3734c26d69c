// Stand-in for rclcpp: an in-process graph that the harness inspects and drives.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <variant>
#include <vector>

#include "rcl_interfaces/msg/all.hpp"
#include "ros_msgs.hpp"

#define RCLCPP_SMART_PTR_DEFINITIONS(T)       \
  using SharedPtr = std::shared_ptr<T>;       \
  using ConstSharedPtr = std::shared_ptr<const T>; \
  using WeakPtr = std::weak_ptr<T>;

enum rmw_qos_reliability_policy_e { RMW_QOS_POLICY_RELIABILITY_SYSTEM_DEFAULT, RMW_QOS_POLICY_RELIABILITY_RELIABLE, RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT, RMW_QOS_POLICY_RELIABILITY_UNKNOWN };
enum rmw_qos_durability_policy_e { RMW_QOS_POLICY_DURABILITY_SYSTEM_DEFAULT, RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL, RMW_QOS_POLICY_DURABILITY_VOLATILE, RMW_QOS_POLICY_DURABILITY_UNKNOWN };
struct rmw_qos_profile_t {
  size_t depth;
  rmw_qos_reliability_policy_e reliability;
  rmw_qos_durability_policy_e durability;
};
static const rmw_qos_profile_t rmw_qos_profile_default = {10, RMW_QOS_POLICY_RELIABILITY_RELIABLE, RMW_QOS_POLICY_DURABILITY_VOLATILE};

struct rcl_serialized_message_t {
  uint8_t* buffer = nullptr;
  size_t buffer_length = 0, buffer_capacity = 0;
};

namespace rclcpp {
class QoS {
 public:
  QoS(size_t depth) : p_(rmw_qos_profile_default) { p_.depth = depth; }
  QoS& reliable() { return p_.reliability = RMW_QOS_POLICY_RELIABILITY_RELIABLE, *this; }
  QoS& best_effort() { return p_.reliability = RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT, *this; }
  QoS& transient_local() { return p_.durability = RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL, *this; }
  QoS& durability_volatile() { return p_.durability = RMW_QOS_POLICY_DURABILITY_VOLATILE, *this; }
  const rmw_qos_profile_t& get_rmw_qos_profile() const { return p_; }
  rmw_qos_profile_t& get_rmw_qos_profile() { return p_; }

 private:
  rmw_qos_profile_t p_;
};
class SensorDataQoS : public QoS {
 public:
  SensorDataQoS() : QoS(5) { best_effort(); }
};
class TopicEndpointInfo {
 public:
  explicit TopicEndpointInfo(const QoS& q) : q_(q) {}
  const QoS& qos_profile() const { return q_; }

 private:
  QoS q_;
};

// Owns its buffer, as the real one does: the destructor releases what the structure points to.
class SerializedMessage {
 public:
  SerializedMessage() = default;
  explicit SerializedMessage(size_t n) { reserve(n); }
  SerializedMessage(const SerializedMessage& o) { assign(o); }
  SerializedMessage& operator=(const SerializedMessage& o) {
    if (this != &o) {
      ::operator delete(m_.buffer);
      m_ = {};
      assign(o);
    }
    return *this;
  }
  ~SerializedMessage() {
    ::operator delete(m_.buffer);
  }
  void reserve(size_t n) {
    // (operator new: seen by the allocation hooks of the checks)
    auto* b = static_cast<uint8_t*>(::operator new(n ? n : 1));
    if (m_.buffer) memcpy(b, m_.buffer, m_.buffer_length < n ? m_.buffer_length : n);
    ::operator delete(m_.buffer);
    m_.buffer = b;
    m_.buffer_capacity = n;
  }
  rcl_serialized_message_t& get_rcl_serialized_message() { return m_; }
  const rcl_serialized_message_t& get_rcl_serialized_message() const { return m_; }
  size_t size() const { return m_.buffer_length; }
  size_t capacity() const { return m_.buffer_capacity; }

 private:
  void assign(const SerializedMessage& o) {
    reserve(o.m_.buffer_length);
    if (o.m_.buffer_length) memcpy(m_.buffer, o.m_.buffer, o.m_.buffer_length);
    m_.buffer_length = o.m_.buffer_length;
  }
  rcl_serialized_message_t m_;
};

class SubscriptionBase {
 public:
  RCLCPP_SMART_PTR_DEFINITIONS(SubscriptionBase)
  virtual ~SubscriptionBase() = default;
  const char* get_topic_name() const { return topic.c_str(); }
  std::string topic, type;
  QoS qos{0};
};
class GenericSubscription : public SubscriptionBase {
 public:
  RCLCPP_SMART_PTR_DEFINITIONS(GenericSubscription)
  std::function<void(std::shared_ptr<SerializedMessage>)> callback;
};
class PublisherBase {
 public:
  RCLCPP_SMART_PTR_DEFINITIONS(PublisherBase)
  virtual ~PublisherBase() = default;
  std::string topic, type;
  QoS qos{0};
};
class GenericPublisher : public PublisherBase {
 public:
  RCLCPP_SMART_PTR_DEFINITIONS(GenericPublisher)
  size_t get_subscription_count() const { return subscribers; }
  void publish(const SerializedMessage& m) { published.emplace_back(m.get_rcl_serialized_message().buffer, m.get_rcl_serialized_message().buffer + m.get_rcl_serialized_message().buffer_length); }
  size_t subscribers = 1;
  std::deque<std::vector<uint8_t>> published;
};

class Parameter {
 public:
  using Value = std::variant<std::monostate, bool, int64_t, double, std::string>;
  Parameter() = default;
  Parameter(std::string n, Value v) : name_(std::move(n)), v_(std::move(v)) {}
  const std::string& get_name() const { return name_; }
  bool as_bool() const { return std::get<bool>(v_); }
  int64_t as_int() const { return std::get<int64_t>(v_); }
  double as_double() const { return std::get<double>(v_); }
  const std::string& as_string() const { return std::get<std::string>(v_); }
  template <class T>
  T get_value() const {
    return std::get<T>(v_);
  }
  const Value& value() const { return v_; }

 private:
  std::string name_;
  Value v_;
};
using ParameterValue = Parameter::Value;
class NodeOptions {
 public:
  NodeOptions& use_intra_process_comms(bool) { return *this; }
  NodeOptions& parameter_overrides(std::vector<Parameter> p) { return overrides = std::move(p), *this; }
  NodeOptions& append_parameter_override(const std::string& n, Parameter::Value v) { return overrides.emplace_back(n, std::move(v)), *this; }
  std::vector<Parameter> overrides;
};
class Logger {};
inline Logger get_logger(const std::string&) { return {}; }

// what the nodes did, for the harness
struct Graph {
  std::map<std::string, std::vector<TopicEndpointInfo>> publishers;  // offered
  std::vector<GenericSubscription::SharedPtr> subs;
  std::vector<GenericPublisher::SharedPtr> pubs;
  static Graph& get() {
    static Graph g;
    return g;
  }
};

class Node : public std::enable_shared_from_this<Node> {
 public:
  RCLCPP_SMART_PTR_DEFINITIONS(Node)
  explicit Node(const std::string& name, const NodeOptions& o = {}) : name_(name) {
    for (auto& p : o.overrides) params_[p.get_name()] = p;
  }
  virtual ~Node() = default;
  Logger get_logger() const { return {}; }
  const char* get_name() const { return name_.c_str(); }
  template <class T>
  T declare_parameter(const std::string& n, const T& dflt) {
    if (!params_.count(n)) params_[n] = Parameter(n, dflt);
    return params_[n].get_value<T>();
  }
  Parameter get_parameter(const std::string& n) const {
    if (!params_.count(n)) throw std::runtime_error("parameter not declared: " + n);
    return params_.at(n);
  }
  template <class T>
  bool get_parameter(const std::string& n, T& v) const {
    if (!params_.count(n)) return false;
    v = params_.at(n).template get_value<T>();
    return true;
  }
  void set_parameter(const Parameter& p) { params_[p.get_name()] = p; }
  std::vector<TopicEndpointInfo> get_publishers_info_by_topic(const std::string& t, bool = false) const { return Graph::get().publishers[t]; }
  template <class Fn>
  GenericSubscription::SharedPtr create_generic_subscription(const std::string& topic, const std::string& type, const QoS& q, Fn&& cb) {
    auto s = std::make_shared<GenericSubscription>();
    s->topic = topic, s->type = type, s->qos = q, s->callback = cb;
    Graph::get().subs.push_back(s);
    return s;
  }
  GenericPublisher::SharedPtr create_generic_publisher(const std::string& topic, const std::string& type, const QoS& q) {
    auto s = std::make_shared<GenericPublisher>();
    s->topic = topic, s->type = type, s->qos = q;
    Graph::get().pubs.push_back(s);
    return s;
  }

 private:
  std::string name_;
  std::map<std::string, Parameter> params_;
};
template <class... A>
inline void shim_log(const A&...) {}
}  // namespace rclcpp
// the arguments are evaluated, nothing is printed
#define RCLCPP_INFO(logger, ...) ::rclcpp::shim_log(logger, __VA_ARGS__)
#define RCLCPP_WARN(logger, ...) ::rclcpp::shim_log(logger, __VA_ARGS__)
#define RCLCPP_ERROR(logger, ...) ::rclcpp::shim_log(logger, __VA_ARGS__)
#define RCLCPP_DEBUG(logger, ...) ::rclcpp::shim_log(logger, __VA_ARGS__)
#define RCLCPP_WARN_ONCE(logger, ...) ::rclcpp::shim_log(logger, __VA_ARGS__)
#define RCLCPP_WARN_THROTTLE(logger, clock, ms, ...) ::rclcpp::shim_log(logger, __VA_ARGS__)
#define RCLCPP_ERROR_THROTTLE(logger, clock, ms, ...) ::rclcpp::shim_log(logger, __VA_ARGS__)
