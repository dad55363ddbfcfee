#ifndef RCUTILS__TESTING__FAULT_INJECTION_H_
#define RCUTILS__TESTING__FAULT_INJECTION_H_
#include <stdbool.h>
#include <stdint.h>
#include "rcutils/macros.h"
#define RCUTILS_FAULT_INJECTION_NEVER_FAIL -1
#define RCUTILS_FAULT_INJECTION_FAIL_NOW 0
#ifdef __cplusplus
extern "C" {
#endif
void rcutils_fault_injection_set_count(int_least64_t count);
int_least64_t rcutils_fault_injection_get_count(void);
int_least64_t rcutils_fault_injection_maybe_fail(void);
bool rcutils_fault_injection_is_test_complete(void);
#ifdef __cplusplus
}
#endif
#define RCUTILS_FAULT_INJECTION_TEST(code) \
  do { \
    int fault_injection_count = 0; \
    do { \
      rcutils_fault_injection_set_count(fault_injection_count++); \
      code; \
    } while (!rcutils_fault_injection_is_test_complete()); \
    rcutils_fault_injection_set_count(RCUTILS_FAULT_INJECTION_NEVER_FAIL); \
  } while (0)
#endif
