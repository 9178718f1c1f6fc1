#pragma once
#include <sstream>
#include <string>
namespace Elements {
class Logging {
public:
  struct Null { template <typename T> Null operator<<(const T&) const { return {}; } };
  static Logging getLogger(const std::string& = "") { return {}; }
  Null debug() { return {}; } Null info() { return {}; } Null warn() { return {}; } Null error() { return {}; } Null fatal() { return {}; } Null log() { return {}; }
  void debug(const std::string&) {} void info(const std::string&) {} void warn(const std::string&) {} void error(const std::string&) {} void fatal(const std::string&) {}
  template <typename... A> void debug(const char*, A...) {}
  template <typename... A> void info(const char*, A...) {}
  template <typename... A> void warn(const char*, A...) {}
  template <typename... A> void error(const char*, A...) {}
};
}
