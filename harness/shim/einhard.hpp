// Stand-in for the einhard logger: same interface, messages are only counted per level.
#ifndef SX_EINHARD_HPP_
#define SX_EINHARD_HPP_
#include <array>
#include <cstring>
#include <iomanip>
#include <iostream>
#include <sstream>
#include <string>
#include <type_traits>
extern "C" int sx_log_count[8];
namespace einhard {
extern const char VERSION[];
enum LogLevel { ALL, TRACE, DEBUG, INFO, WARN, ERROR, FATAL, OFF };
template <LogLevel>
const char *getLogLevelString() noexcept { return ""; }
inline const char *getLogLevelString(LogLevel) { return ""; }
inline LogLevel getLogLevel(const std::string &) { return ALL; }
template <typename T>
struct Color { Color operator~() const { return *this; } };
struct any_color {};
static const any_color NoColor{}, DGray{}, Black{}, Red{}, Green{}, Yellow{}, Orange{}, Blue{}, Magenta{}, Cyan{}, LGray{}, White{},
    DRed{}, DGreen{}, DYellow{}, DOrange{}, DBlue{}, DMagenta{}, DCyan{};
inline any_color operator~(any_color c) { return c; }
struct NoColor_t_ { static const char *ANSI() { return ""; } };
struct Yellow_t_ { static const char *ANSI() { return ""; } };
struct Sink {
  template <typename T>
  const Sink &operator<<(const T &) const { return *this; }
  const Sink &operator<<(std::ostream &(*)(std::ostream &)) const { return *this; }
};
template <LogLevel MAX = ALL>
class Logger {
 public:
  Logger(LogLevel = OFF) {}
  Logger(LogLevel, bool) {}
  void setAreaName(const char *) {}
  void setAreaName(const std::string &) {}
  template <typename... Ts> Sink trace(Ts &&...) const { return {}; }
  template <typename... Ts> Sink debug(Ts &&...) const { return {}; }
  template <typename... Ts> Sink info(Ts &&...) const { sx_log_count[INFO]++; return {}; }
  template <typename... Ts> Sink warn(Ts &&...) const { sx_log_count[WARN]++; return {}; }
  template <typename... Ts> Sink error(Ts &&...) const { sx_log_count[ERROR]++; return {}; }
  template <typename... Ts> Sink fatal(Ts &&...) const { sx_log_count[FATAL]++; return {}; }
  template <LogLevel L> bool isEnabled() const noexcept { return false; }
  bool isEnabled(LogLevel) const noexcept { return false; }
  void setVerbosity(LogLevel) noexcept {}
  LogLevel getVerbosity() const noexcept { return OFF; }
  const char *getVerbosityString() const { return ""; }
};
}  // namespace einhard
#endif
