// External headers only: nothing of /repo may be baked into the precompiled header.
#pragma once
[[noreturn]] void hbsim_eigen_assert(const char* expr, const char* file, int line) noexcept(false);
#define eigen_assert(x)                                     \
    do {                                                    \
        if (!(x)) hbsim_eigen_assert(#x, __FILE__, __LINE__); \
    } while (false)
#include <Eigen/Dense>
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <concepts>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <exception>
#include <expected>
#include <filesystem>
#include <format>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <ranges>
#include <set>
#include <span>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>

#include <netcdf.h>
#include <yaml-cpp/yaml.h>
