// Stand-in for the Elements framework's exception class (the framework is not installed here): message and exit code only.
#ifndef VSTUB_ELEMENTS_EXCEPTION_H
#define VSTUB_ELEMENTS_EXCEPTION_H
#include <exception>
#include <sstream>
#include <string>
#include "ElementsKernel/Export.h"
namespace Elements {
enum class ExitCode { OK = 0, NOT_OK = 1, CONFIG = 78 };
class Exception : public std::exception {
public:
  explicit Exception(ExitCode = ExitCode::NOT_OK) {}
  explicit Exception(const std::string& m, ExitCode = ExitCode::NOT_OK) : m_error_msg(m) {}
  explicit Exception(const char* m, ExitCode = ExitCode::NOT_OK) : m_error_msg(m) {}
  const char* what() const noexcept override { return m_error_msg.c_str(); }
  template <typename T> void appendMessage(const T& m) { std::ostringstream o; o << m; m_error_msg += o.str(); }
  ~Exception() override {}
protected:
  std::string m_error_msg{};
};
template <typename Ex, typename T> auto operator<<(const Ex& e, const T& m) -> typename std::enable_if<std::is_base_of<Exception, Ex>::value, Ex>::type {
  Ex r(e); r.appendMessage(m); return r;
}
}
#endif
