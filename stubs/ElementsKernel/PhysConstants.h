#pragma once
namespace Elements { namespace Units {
constexpr double c_light = 2.99792458e8;  // overridden by the including code's own scaling
}}
