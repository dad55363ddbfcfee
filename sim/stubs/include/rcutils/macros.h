#ifndef RCUTILS__MACROS_H_
#define RCUTILS__MACROS_H_
#ifndef RCUTILS_WARN_UNUSED
#define RCUTILS_WARN_UNUSED __attribute__((warn_unused_result))
#endif
#define RCUTILS_UNUSED(x) (void)(x)
#define RCUTILS_STRINGIFY_IMPL(x) #x
#define RCUTILS_STRINGIFY(x) RCUTILS_STRINGIFY_IMPL(x)
#define RCUTILS_JOIN_IMPL(a, b) a ## b
#define RCUTILS_JOIN(a, b) RCUTILS_JOIN_IMPL(a, b)
#define RCUTILS_LIKELY(x) __builtin_expect((x), 1)
#define RCUTILS_UNLIKELY(x) __builtin_expect((x), 0)
#define RCUTILS_DEPRECATED_WITH_MSG(msg) __attribute__((deprecated(msg)))
#define RCUTILS_HAS_ATTRIBUTE(x) 0
#define RCUTILS_ATTRIBUTE_PRINTF_FORMAT(a, b) __attribute__((format(printf, a, b)))
#define RCUTILS_THREAD_LOCAL __thread
#define RCUTILS_CAN_RETURN_WITH_ERROR_OF(x)
#define RCUTILS_CAN_FAIL_WITH(x)
#define RCUTILS_CAN_SET_MSG_AND_RETURN_WITH_ERROR_OF(x)
#endif
