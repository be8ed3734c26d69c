#pragma once
#include "all.hpp"
