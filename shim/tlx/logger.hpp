// Stand-in for the parts of tlx/logger.hpp that VieCut uses (the tlx submodule
// is not available offline).  Same macro semantics: LOG is controlled by the
// `debug` constant in scope, LOG0/LOG1 are off/on, the sLOG forms put spaces
// between the items.  Output can be switched off at run time.
#pragma once
#include <deque>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace tlx {
inline bool& shim_log_enabled() {
    static bool enabled = true;
    return enabled;
}

class Logger;
namespace shim_detail {
template <typename T>
void put(std::ostream& os, const T& t);
template <typename T>
auto put_impl(std::ostream& os, const T& t, int) -> decltype(os << t, void()) {
    os << t;
}
template <typename A, typename B>
void put_impl(std::ostream& os, const std::pair<A, B>& p, int) {
    os << '(';
    put(os, p.first);
    os << ',';
    put(os, p.second);
    os << ')';
}
template <typename T>
auto put_impl(std::ostream& os, const T& t, long)  // NOLINT
-> decltype(t.begin(), t.end(), void()) {
    os << '[';
    bool first = true;
    for (const auto& x : t) {
        if (!first) os << ',';
        first = false;
        put(os, x);
    }
    os << ']';
}
template <typename T>
void put(std::ostream& os, const T& t) {
    put_impl(os, t, 0);
}
}  // namespace shim_detail

class Logger {
 public:
    Logger() { }
    ~Logger() {
        if (shim_log_enabled()) {
            oss_ << '\n';
            std::cout << oss_.str() << std::flush;
        }
    }
    template <typename T>
    Logger& operator << (const T& t) {
        shim_detail::put(oss_, t);
        return *this;
    }

 private:
    std::ostringstream oss_;
};

class SpacingLogger {
 public:
    SpacingLogger() { }
    ~SpacingLogger() {
        if (shim_log_enabled()) {
            oss_ << '\n';
            std::cout << oss_.str() << std::flush;
        }
    }
    template <typename T>
    SpacingLogger& operator << (const T& t) {
        if (!first_) oss_ << ' ';
        first_ = false;
        shim_detail::put(oss_, t);
        return *this;
    }

 private:
    bool first_ = true;
    std::ostringstream oss_;
};

class LoggerVoidify {
 public:
    void operator & (Logger&) { }
    void operator & (SpacingLogger&) { }
};
}  // namespace tlx

#define LOGC(cond) \
    !(cond) ? (void)0 : ::tlx::LoggerVoidify() & ::tlx::Logger()
#define LOG LOGC(debug)
#define LOG0 LOGC(false)
#define LOG1 LOGC(true)
#define sLOGC(cond) \
    !(cond) ? (void)0 : ::tlx::LoggerVoidify() & ::tlx::SpacingLogger()
#define sLOG sLOGC(debug)
#define sLOG0 sLOGC(false)
#define sLOG1 sLOGC(true)
