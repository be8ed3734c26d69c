#pragma once
#include "rclcpp.hpp"
