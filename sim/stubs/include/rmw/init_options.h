#ifndef RMW__INIT_OPTIONS_H_
#define RMW__INIT_OPTIONS_H_
#include <stdint.h>
#include "rcutils/allocator.h"
typedef struct rmw_init_options_impl_s rmw_init_options_impl_t;
typedef struct rmw_init_options_s
{
  uint64_t instance_id;
  const char * implementation_identifier;
  size_t domain_id;
  rcutils_allocator_t allocator;
  char * enclave;
  rmw_init_options_impl_t * impl;
} rmw_init_options_t;
#endif
