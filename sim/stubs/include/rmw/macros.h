#ifndef RMW__MACROS_H_
#define RMW__MACROS_H_
#include "rcutils/macros.h"
#define RMW_WARN_UNUSED RCUTILS_WARN_UNUSED
#define RMW_STRINGIFY(x) RCUTILS_STRINGIFY(x)
#define RMW_UNUSED(x) RCUTILS_UNUSED(x)
#define RMW_PUBLIC
#define RMW_PUBLIC_TYPE
#define RMW_DECLARE_DEPRECATED(name, msg) name __attribute__((deprecated(msg)))
#endif
