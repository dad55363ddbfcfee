#ifndef RCUTILS__LOGGING_MACROS_H_
#define RCUTILS__LOGGING_MACROS_H_
#include "rcutils/macros.h"
#ifdef __cplusplus
extern "C" {
#endif
// Logging is a stub: it formats into a counter and emits nothing.
void rcutils_stub_log(int severity, const char * name, const char * format, ...) __attribute__((format(printf, 3, 4)));
#ifdef __cplusplus
}
#endif
#define RCUTILS_LOG_DEBUG_NAMED(name, ...) rcutils_stub_log(10, name, __VA_ARGS__)
#define RCUTILS_LOG_INFO_NAMED(name, ...) rcutils_stub_log(20, name, __VA_ARGS__)
#define RCUTILS_LOG_WARN_NAMED(name, ...) rcutils_stub_log(30, name, __VA_ARGS__)
#define RCUTILS_LOG_ERROR_NAMED(name, ...) rcutils_stub_log(40, name, __VA_ARGS__)
#define RCUTILS_LOG_FATAL_NAMED(name, ...) rcutils_stub_log(50, name, __VA_ARGS__)
#define RCUTILS_LOG_DEBUG(...) rcutils_stub_log(10, "", __VA_ARGS__)
#define RCUTILS_LOG_INFO(...) rcutils_stub_log(20, "", __VA_ARGS__)
#define RCUTILS_LOG_WARN(...) rcutils_stub_log(30, "", __VA_ARGS__)
#define RCUTILS_LOG_ERROR(...) rcutils_stub_log(40, "", __VA_ARGS__)
#define RCUTILS_LOG_FATAL(...) rcutils_stub_log(50, "", __VA_ARGS__)
#define RCUTILS_LOG_DEBUG_ONCE_NAMED RCUTILS_LOG_DEBUG_NAMED
#define RCUTILS_LOG_WARN_ONCE_NAMED RCUTILS_LOG_WARN_NAMED
#define RCUTILS_LOG_ERROR_ONCE_NAMED RCUTILS_LOG_ERROR_NAMED
#endif
