#pragma once
#include "rclcpp/rclcpp.hpp"
// the registered class is reachable by the harness through its factory
namespace shim {
using Factory = std::shared_ptr<rclcpp::Node> (*)(const rclcpp::NodeOptions&);
inline Factory& component() {
  static Factory f = nullptr;
  return f;
}
}  // namespace shim
#define RCLCPP_COMPONENTS_REGISTER_NODE(T)                                                                             \
  static const bool shim_registered = [] {                                                                            \
    shim::component() = [](const rclcpp::NodeOptions& o) -> std::shared_ptr<rclcpp::Node> { return std::make_shared<T>(o); }; \
    return true;                                                                                                       \
  }();
