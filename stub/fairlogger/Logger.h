// Stand-in for <fairlogger/Logger.h> (FairLogger is not available here): nothing is ever logged.
// Messages are type-checked but never evaluated, as with a severity that is filtered out.
#pragma once
#include <ostream>
#include <string>
#include <string_view>
#include <functional>
#include <array>
#include <map>
#include <unordered_map>
#include <memory>
#include <iostream>
#include <fstream>
#include <sstream>

namespace fair {
enum class Severity : int { nolog, trace, debug4, debug3, debug2, debug1, debug, detail, info, state, important, alarm, warn, error, critical, fatal };
enum class Verbosity : int { verylow, low, medium, high, veryhigh, user1, user2, user3, user4 };
struct VerbositySpec
{
    enum class Info : int { __empty__, hostname, process_name, timestamp, timestamp_us, timestamp_s, severity, file, line, file_line, file_line_function };
    template<typename... A> static VerbositySpec Make(A...) { return {}; }
};
inline std::ostream& operator<<(std::ostream& o, Verbosity v) { return o << int(v); }
inline std::ostream& operator<<(std::ostream& o, Severity v) { return o << int(v); }
namespace stublog {
struct Stream
{
    template<typename T> const Stream& operator<<(const T&) const { return *this; }
    const Stream& operator<<(std::ostream& (*)(std::ostream&)) const { return *this; }
};
#ifdef FAIR_STUBLOG_RECORD
// what the logger has been told, and what was printed whatever the severity (verbosity verylow)
inline std::function<void(const std::string&)> tell;
template<typename... A> void told(const char* what, const A&... a)
{
    if (!tell) return;
    std::stringstream s;
    s << what << std::boolalpha;
    (void)std::initializer_list<int>{((s << " " << a), 0)...};
    tell(s.str());
}
struct Printed
{
    std::stringstream s;
    template<typename T> Printed& operator<<(const T& t) { s << t; return *this; }
    ~Printed() { told("print", s.str()); }
};
#endif
#ifdef FAIR_STUBLOG_LINES
// with FAIR_STUBLOG_RECORD: every message
struct Line
{
    const char* severity;
    std::stringstream s;
    explicit Line(const char* sev) : severity(sev) {}
    template<typename T> Line& operator<<(const T& t) { s << t; return *this; }
    Line& operator<<(std::ostream& (*f)(std::ostream&)) { s << f; return *this; }
    ~Line() { told(severity, s.str()); }
};
#endif
}   // namespace stublog
class Logger
{
  public:
#ifdef FAIR_STUBLOG_RECORD
    template<typename... A> static void SetConsoleSeverity(A&&... a) { stublog::told("console", a...); }
    template<typename... A> static void SetFileSeverity(A&&... a) { stublog::told("file", a...); }
    template<typename... A> static void SetVerbosity(A&&... a) { stublog::told("verbosity", a...); }
    template<typename... A> static std::string InitFileSink(A&&... a) { stublog::told("sink", a...); return {}; }
    template<typename... A> static void SetConsoleColor(A&&... a) { stublog::told("color", a...); }
#else
    template<typename... A> static void SetConsoleSeverity(A&&...) {}
    template<typename... A> static void SetFileSeverity(A&&...) {}
    template<typename... A> static void SetVerbosity(A&&...) {}
    template<typename... A> static std::string InitFileSink(A&&...) { return {}; }
    template<typename... A> static void SetConsoleColor(A&&...) {}
#endif
    template<typename... A> static void DefineVerbosity(A&&...) {}
    template<typename... A> static void CycleConsoleSeverityUp(A&&...) {}
    template<typename... A> static void CycleConsoleSeverityDown(A&&...) {}
    template<typename... A> static void CycleVerbosityUp(A&&...) {}
    template<typename... A> static void CycleVerbosityDown(A&&...) {}
    template<typename... A> static void OnFatal(A&&...) {}
    static bool Logging(Severity) { return false; }
    static bool Logging(const std::string&) { return false; }
    static const std::map<std::string, int>& Severities() { static std::map<std::string, int> m; return m; }
};
}   // namespace fair

#ifdef FAIR_STUBLOG_LINES
#define LOG(severity) ::fair::stublog::Line(#severity)
#else
#define LOG(severity) for (bool fair_stublog_ = false; fair_stublog_; fair_stublog_ = false) ::fair::stublog::Stream()
#endif
#ifdef FAIR_STUBLOG_RECORD
#define LOGV(severity, verbosity) ::fair::stublog::Printed()
#else
#define LOGV(severity, verbosity) LOG(severity)
#endif
#define LOGP(severity, ...) do {} while (0)
#define LOGF(severity, ...) do {} while (0)
