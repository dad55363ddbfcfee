#ifndef RCUTILS__STRDUP_H_
#define RCUTILS__STRDUP_H_
#include <stddef.h>
#include "rcutils/allocator.h"
#ifdef __cplusplus
extern "C" {
#endif
char * rcutils_strdup(const char * str, rcutils_allocator_t allocator);
char * rcutils_strndup(const char * str, size_t string_length, rcutils_allocator_t allocator);
#ifdef __cplusplus
}
#endif
#endif
