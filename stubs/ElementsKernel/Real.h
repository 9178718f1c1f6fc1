// Stand-in: Elements::isEqual compares floating point numbers up to 4 units in the last place (as the framework does for double)
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
namespace Elements {
constexpr std::size_t FLT_DEFAULT_MAX_ULPS = 4, DBL_DEFAULT_MAX_ULPS = 10;
inline bool isEqual(double a, double b) {
  if (std::isnan(a) || std::isnan(b)) return false;
  int64_t x, y; std::memcpy(&x, &a, 8); std::memcpy(&y, &b, 8);
  if (x < 0) x = INT64_MIN - x;
  if (y < 0) y = INT64_MIN - y;
  uint64_t d = x >= y ? (uint64_t)x - (uint64_t)y : (uint64_t)y - (uint64_t)x;
  return d <= DBL_DEFAULT_MAX_ULPS;
}
inline bool isNotEqual(double a, double b) { return !isEqual(a, b); }
inline bool realBitWiseEqual(double a, double b) { return a == b; }
}
