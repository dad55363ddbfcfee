#ifndef RCUTILS__VISIBILITY_CONTROL_H_
#define RCUTILS__VISIBILITY_CONTROL_H_
#define RCUTILS_PUBLIC
#define RCUTILS_PUBLIC_TYPE
#define RCUTILS_LOCAL
#endif
