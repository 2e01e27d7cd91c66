// Stand-in for Boost.Log: messages are compiled, never written. (No check is about log messages.)
#pragma once
#include <ostream>
#include <sstream>
namespace boost::log {
namespace keywords { struct Severity { template <typename T> struct Value { T v; }; template <typename T> Value<T> operator=(T v) const { return {v}; } }; inline constexpr Severity severity{}; }
namespace sources {
template <typename T> struct severity_logger { severity_logger() = default; template <typename V> severity_logger(V) {} };
struct logger {};
template <typename T = int, typename C = int> struct severity_channel_logger { severity_channel_logger() = default; template <typename... V> severity_channel_logger(V...) {} };
}
namespace trivial { enum severity_level { trace, debug, info, warning, error, fatal }; }
struct Drop { template <typename T> const Drop& operator<<(const T&) const { return *this; } };
}
#define BOOST_LOG(l) if (false) ::boost::log::Drop{}
#define BOOST_LOG_SEV(l, s) if (false) ::boost::log::Drop{}
#define BOOST_LOG_SCOPED_LOGGER_TAG(l, n, v) static_cast<void>(0)
