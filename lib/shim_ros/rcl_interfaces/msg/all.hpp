#pragma once
#include <cstdint>
#include <string>
#include <vector>
namespace rcl_interfaces::msg {
struct IntegerRange {
  int64_t from_value = 0, to_value = 0;
  uint64_t step = 0;
  IntegerRange& set__from_value(int64_t v) { return from_value = v, *this; }
  IntegerRange& set__to_value(int64_t v) { return to_value = v, *this; }
  IntegerRange& set__step(uint64_t v) { return step = v, *this; }
};
struct FloatingPointRange {
  double from_value = 0, to_value = 0, step = 0;
  FloatingPointRange& set__from_value(double v) { return from_value = v, *this; }
  FloatingPointRange& set__to_value(double v) { return to_value = v, *this; }
  FloatingPointRange& set__step(double v) { return step = v, *this; }
};
struct ParameterType {
  enum : uint8_t { PARAMETER_NOT_SET, PARAMETER_BOOL, PARAMETER_INTEGER, PARAMETER_DOUBLE, PARAMETER_STRING };
};
struct ParameterDescriptor {
  std::string name;
  uint8_t type = 0;
  std::string description, additional_constraints;
  bool read_only = false, dynamic_typing = false;
  std::vector<FloatingPointRange> floating_point_range;
  std::vector<IntegerRange> integer_range;
  ParameterDescriptor& set__integer_range(const std::vector<IntegerRange>& v) { return integer_range = v, *this; }
  ParameterDescriptor& set__floating_point_range(const std::vector<FloatingPointRange>& v) { return floating_point_range = v, *this; }
};
struct SetParametersResult {
  bool successful = false;
  std::string reason;
};
}  // namespace rcl_interfaces::msg
