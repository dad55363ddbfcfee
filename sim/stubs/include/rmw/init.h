#ifndef RMW__INIT_H_
#define RMW__INIT_H_
#include <stdint.h>
#include "rmw/init_options.h"
#include "rmw/macros.h"
#include "rmw/ret_types.h"
typedef struct rmw_context_impl_s rmw_context_impl_t;
typedef struct rmw_context_s
{
  uint64_t instance_id;
  const char * implementation_identifier;
  rmw_init_options_t options;
  size_t actual_domain_id;
  rmw_context_impl_t * impl;
} rmw_context_t;
#endif
