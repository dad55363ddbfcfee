// Stand-ins for the parts of rcutils, rmw and rosidl_runtime_c that rmw_dds_common calls.
// The real packages are not installed in this sandbox; these follow their published behaviour
// (argument checks, ownership, error codes, what is zeroed on failure).
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>

#include "rcutils/allocator.h"
#include "rcutils/error_handling.h"
#include "rcutils/format_string.h"
#include "rcutils/logging_macros.h"
#include "rcutils/snprintf.h"
#include "rcutils/strdup.h"
#include "rcutils/testing/fault_injection.h"
#include "rcutils/types.h"
#include "rmw/convert_rcutils_ret_to_rmw_ret.h"
#include "rmw/error_handling.h"
#include "rmw/names_and_types.h"
#include "rmw/qos_profiles.h"
#include "rmw/qos_string_conversions.h"
#include "rmw/sanity_checks.h"
#include "rmw/topic_endpoint_info.h"
#include "rmw/topic_endpoint_info_array.h"
#include "rosidl_runtime_c/type_hash.h"

#ifdef STUB_FAULT_INJECTION
#define MAYBE_FAIL(x) if (rcutils_fault_injection_maybe_fail() == 0) {return x;}
#else
#define MAYBE_FAIL(x)
#endif

extern "C" {

// ---- fault injection counter (only active when built with STUB_FAULT_INJECTION, for the repo's own tests)
static int_least64_t g_fault_count = RCUTILS_FAULT_INJECTION_NEVER_FAIL;
void rcutils_fault_injection_set_count(int_least64_t count) {g_fault_count = count;}
int_least64_t rcutils_fault_injection_get_count(void) {return g_fault_count;}
bool rcutils_fault_injection_is_test_complete(void)
{
#ifdef STUB_FAULT_INJECTION
  return g_fault_count > RCUTILS_FAULT_INJECTION_NEVER_FAIL;
#else
  return true;
#endif
}
int_least64_t rcutils_fault_injection_maybe_fail(void)
{
  if (g_fault_count <= RCUTILS_FAULT_INJECTION_NEVER_FAIL) {return RCUTILS_FAULT_INJECTION_NEVER_FAIL;}
  return g_fault_count--;
}

// ---- allocator
static void * default_allocate(size_t size, void *) {MAYBE_FAIL(nullptr); return malloc(size);}
static void default_deallocate(void * p, void *) {free(p);}
static void * default_reallocate(void * p, size_t size, void *) {MAYBE_FAIL(nullptr); return realloc(p, size);}
static void * default_zero_allocate(size_t n, size_t s, void *) {MAYBE_FAIL(nullptr); return calloc(n, s);}
rcutils_allocator_t rcutils_get_zero_initialized_allocator(void)
{
  rcutils_allocator_t a = {nullptr, nullptr, nullptr, nullptr, nullptr};
  return a;
}
rcutils_allocator_t rcutils_get_default_allocator(void)
{
  rcutils_allocator_t a =
  {default_allocate, default_deallocate, default_reallocate, default_zero_allocate, nullptr};
  return a;
}
bool rcutils_allocator_is_valid(const rcutils_allocator_t * a)
{
  return a && a->allocate && a->deallocate && a->zero_allocate && a->reallocate;
}
void * rcutils_reallocf(void * pointer, size_t size, rcutils_allocator_t * allocator)
{
  if (!rcutils_allocator_is_valid(allocator)) {return nullptr;}
  void * p = allocator->reallocate(pointer, size, allocator->state);
  if (!p) {allocator->deallocate(pointer, allocator->state);}
  return p;
}

// ---- error state: one per thread
static __thread bool t_error_set = false;
static __thread char t_error_msg[256];
rcutils_ret_t rcutils_initialize_error_handling_thread_local_storage(rcutils_allocator_t) {return RCUTILS_RET_OK;}
void rcutils_set_error_state(const char * msg, const char *, size_t)
{
  t_error_set = true;
  strncpy(t_error_msg, msg ? msg : "", sizeof(t_error_msg) - 1);
  t_error_msg[sizeof(t_error_msg) - 1] = 0;
}
bool rcutils_error_is_set(void) {return t_error_set;}
const rcutils_error_state_t * rcutils_get_error_state(void)
{
  static __thread rcutils_error_state_t st;
  if (!t_error_set) {return nullptr;}
  memcpy(st.message, t_error_msg, sizeof(t_error_msg));
  return &st;
}
rcutils_error_string_t rcutils_get_error_string(void)
{
  rcutils_error_string_t s;
  memset(&s, 0, sizeof(s));
  strncpy(s.str, t_error_set ? t_error_msg : "error not set", sizeof(t_error_msg) - 1);
  return s;
}
void rcutils_reset_error(void) {t_error_set = false; t_error_msg[0] = 0;}
void rcutils_stub_log(int, const char *, const char *, ...) {}

// ---- strings
int rcutils_vsnprintf(char * buffer, size_t buffer_size, const char * format, va_list args)
{
  if (!format) {return -1;}
  if (!buffer && buffer_size != 0) {return -1;}
  return vsnprintf(buffer, buffer_size, format, args);
}
int rcutils_snprintf(char * buffer, size_t buffer_size, const char * format, ...)
{
  va_list args;
  va_start(args, format);
  int r = rcutils_vsnprintf(buffer, buffer_size, format, args);
  va_end(args);
  return r;
}
char * rcutils_strndup(const char * str, size_t n, rcutils_allocator_t allocator)
{
  MAYBE_FAIL(nullptr);
  if (!str) {return nullptr;}
  const char * p = static_cast<const char *>(memchr(str, 0, n));
  size_t len = p ? static_cast<size_t>(p - str) : n;
  char * out = static_cast<char *>(allocator.allocate(len + 1, allocator.state));
  if (!out) {return nullptr;}
  memcpy(out, str, len);
  out[len] = 0;
  return out;
}
char * rcutils_strdup(const char * str, rcutils_allocator_t allocator)
{
  if (!str) {return nullptr;}
  return rcutils_strndup(str, strlen(str), allocator);
}
char * rcutils_format_string_limit(rcutils_allocator_t allocator, size_t limit, const char * format_string, ...)
{
  if (!format_string || !rcutils_allocator_is_valid(&allocator)) {return nullptr;}
  va_list a, b;
  va_start(a, format_string);
  va_copy(b, a);
  int n = vsnprintf(nullptr, 0, format_string, a);
  va_end(a);
  size_t want = static_cast<size_t>(n) + 1 > limit ? limit : static_cast<size_t>(n) + 1;
  char * out = static_cast<char *>(allocator.allocate(want, allocator.state));
  if (out) {vsnprintf(out, want, format_string, b);}
  va_end(b);
  return out;
}
rcutils_string_array_t rcutils_get_zero_initialized_string_array(void)
{
  rcutils_string_array_t a;
  memset(&a, 0, sizeof(a));
  return a;
}
rcutils_ret_t rcutils_string_array_init(
  rcutils_string_array_t * string_array, size_t size, const rcutils_allocator_t * allocator)
{
  MAYBE_FAIL(RCUTILS_RET_BAD_ALLOC);
  if (!rcutils_allocator_is_valid(allocator)) {
    RCUTILS_SET_ERROR_MSG("allocator is null");
    return RCUTILS_RET_INVALID_ARGUMENT;
  }
  if (!string_array) {
    RCUTILS_SET_ERROR_MSG("string_array is null");
    return RCUTILS_RET_INVALID_ARGUMENT;
  }
  string_array->size = size;
  string_array->data = static_cast<char **>(allocator->zero_allocate(size, sizeof(char *), allocator->state));
  if (!string_array->data && 0 != size) {
    RCUTILS_SET_ERROR_MSG("failed to allocate string array");
    return RCUTILS_RET_BAD_ALLOC;
  }
  string_array->allocator = *allocator;
  return RCUTILS_RET_OK;
}
rcutils_ret_t rcutils_string_array_fini(rcutils_string_array_t * string_array)
{
  if (!string_array) {
    RCUTILS_SET_ERROR_MSG("string_array is null");
    return RCUTILS_RET_INVALID_ARGUMENT;
  }
  if (!string_array->data) {return RCUTILS_RET_OK;}
  rcutils_allocator_t * allocator = &string_array->allocator;
  if (!rcutils_allocator_is_valid(allocator)) {
    RCUTILS_SET_ERROR_MSG("allocator is invalid");
    return RCUTILS_RET_INVALID_ARGUMENT;
  }
  for (size_t i = 0; i < string_array->size; ++i) {
    allocator->deallocate(string_array->data[i], allocator->state);
    string_array->data[i] = nullptr;
  }
  allocator->deallocate(string_array->data, allocator->state);
  string_array->data = nullptr;
  string_array->size = 0;
  return RCUTILS_RET_OK;
}
rcutils_ret_t rcutils_string_array_resize(rcutils_string_array_t * sa, size_t new_size)
{
  if (!sa || !rcutils_allocator_is_valid(&sa->allocator)) {return RCUTILS_RET_INVALID_ARGUMENT;}
  rcutils_allocator_t * al = &sa->allocator;
  if (new_size == sa->size) {return RCUTILS_RET_OK;}
  char ** tmp = nullptr;
  size_t to_reclaim = sa->size > new_size ? sa->size - new_size : 0;
  if (to_reclaim) {
    tmp = static_cast<char **>(al->allocate(to_reclaim * sizeof(char *), al->state));
    if (!tmp) {return RCUTILS_RET_BAD_ALLOC;}
    memcpy(tmp, &sa->data[new_size], to_reclaim * sizeof(char *));
  }
  char ** nd = static_cast<char **>(al->reallocate(sa->data, new_size * sizeof(char *), al->state));
  if (!nd && new_size != 0) {
    al->deallocate(tmp, al->state);
    return RCUTILS_RET_BAD_ALLOC;
  }
  sa->data = nd;
  for (size_t i = sa->size; i < new_size; ++i) {sa->data[i] = nullptr;}
  for (size_t i = 0; i < to_reclaim; ++i) {al->deallocate(tmp[i], al->state);}
  al->deallocate(tmp, al->state);
  sa->size = new_size;
  return RCUTILS_RET_OK;
}
rcutils_ret_t rcutils_string_array_cmp(
  const rcutils_string_array_t * lhs, const rcutils_string_array_t * rhs, int * res)
{
  if (!lhs || !rhs || !res) {return RCUTILS_RET_INVALID_ARGUMENT;}
  size_t n = lhs->size < rhs->size ? lhs->size : rhs->size;
  for (size_t i = 0; i < n; ++i) {
    int c = strcmp(lhs->data[i], rhs->data[i]);
    if (c) {*res = c; return RCUTILS_RET_OK;}
  }
  *res = lhs->size < rhs->size ? -1 : lhs->size > rhs->size ? 1 : 0;
  return RCUTILS_RET_OK;
}
int rcutils_string_array_sort_compare(const void * lhs, const void * rhs)
{
  const char * l = *static_cast<const char * const *>(lhs);
  const char * r = *static_cast<const char * const *>(rhs);
  if (!l) {return !r ? 0 : 1;}
  if (!r) {return -1;}
  return strcmp(l, r);
}

// ---- rosidl type hash ("RIHS01_" + 64 hex digits)
rosidl_type_hash_t rosidl_get_zero_initialized_type_hash(void)
{
  rosidl_type_hash_t h;
  memset(&h, 0, sizeof(h));
  return h;
}
rcutils_ret_t rosidl_stringify_type_hash(
  const rosidl_type_hash_t * type_hash, rcutils_allocator_t allocator, char ** output_string)
{
  RCUTILS_CHECK_ARGUMENT_FOR_NULL(type_hash, RCUTILS_RET_INVALID_ARGUMENT);
  RCUTILS_CHECK_ALLOCATOR_WITH_MSG(&allocator, "allocator is invalid", return RCUTILS_RET_INVALID_ARGUMENT);
  RCUTILS_CHECK_ARGUMENT_FOR_NULL(output_string, RCUTILS_RET_INVALID_ARGUMENT);
  const size_t total = 5 + 2 + ROSIDL_TYPE_HASH_SIZE * 2;
  char * out = static_cast<char *>(allocator.allocate(total + 1, allocator.state));
  if (!out) {
    *output_string = nullptr;
    RCUTILS_SET_ERROR_MSG("Unable to allocate space for type hash string.");
    return RCUTILS_RET_BAD_ALLOC;
  }
  static const char digits[] = "0123456789abcdef";
  memcpy(out, "RIHS", 4);
  out[4] = digits[(type_hash->version >> 4) & 15];
  out[5] = digits[type_hash->version & 15];
  out[6] = '_';
  for (size_t i = 0; i < ROSIDL_TYPE_HASH_SIZE; ++i) {
    out[7 + 2 * i] = digits[type_hash->value[i] >> 4];
    out[8 + 2 * i] = digits[type_hash->value[i] & 15];
  }
  out[7 + 2 * ROSIDL_TYPE_HASH_SIZE] = 0;
  *output_string = out;
  return RCUTILS_RET_OK;
}
static int xdigit_value(char c)
{
  if (c >= '0' && c <= '9') {return c - '0';}
  if (c >= 'a' && c <= 'f') {return c - 'a' + 10;}
  if (c >= 'A' && c <= 'F') {return c - 'A' + 10;}
  return -1;
}
rcutils_ret_t rosidl_parse_type_hash_string(const char * s, rosidl_type_hash_t * hash_out)
{
  RCUTILS_CHECK_ARGUMENT_FOR_NULL(s, RCUTILS_RET_INVALID_ARGUMENT);
  RCUTILS_CHECK_ARGUMENT_FOR_NULL(hash_out, RCUTILS_RET_INVALID_ARGUMENT);
  hash_out->version = 0;
  size_t len = strlen(s);
  const size_t prefix = 7;  // "RIHS" + 2 digits + '_'
  const size_t total = prefix + ROSIDL_TYPE_HASH_SIZE * 2;
  if (len < prefix) {
    RCUTILS_SET_ERROR_MSG("Hash string not long enough to contain RIHS prefix.");
    return RCUTILS_RET_INVALID_ARGUMENT;
  }
  if (0 != memcmp(s, "RIHS", 4)) {
    RCUTILS_SET_ERROR_MSG("Hash string doesn't start with RIHS.");
    return RCUTILS_RET_INVALID_ARGUMENT;
  }
  int v1 = xdigit_value(s[4]), v0 = xdigit_value(s[5]);
  if (v1 < 0 || v0 < 0) {
    RCUTILS_SET_ERROR_MSG("RIHS version is not a hexadecimal number.");
    return RCUTILS_RET_INVALID_ARGUMENT;
  }
  uint8_t version = static_cast<uint8_t>((v1 << 4) | v0);
  if (version != 1) {
    RCUTILS_SET_ERROR_MSG("Do not know how to parse RIHS version.");
    return RCUTILS_RET_INVALID_ARGUMENT;
  }
  if (len != total || s[6] != '_') {
    RCUTILS_SET_ERROR_MSG("RIHS string is the incorrect size to contain a RIHS01 value.");
    return RCUTILS_RET_INVALID_ARGUMENT;
  }
  for (size_t i = 0; i < ROSIDL_TYPE_HASH_SIZE; ++i) {
    int hi = xdigit_value(s[prefix + 2 * i]), lo = xdigit_value(s[prefix + 2 * i + 1]);
    if (hi < 0 || lo < 0) {
      RCUTILS_SET_ERROR_MSG("Type hash string value did not contain only hexadecimal digits.");
      return RCUTILS_RET_INVALID_ARGUMENT;
    }
    hash_out->value[i] = static_cast<uint8_t>((hi << 4) | lo);
  }
  hash_out->version = version;
  return RCUTILS_RET_OK;
}

// ---- rmw
rmw_ret_t rmw_convert_rcutils_ret_to_rmw_ret(rcutils_ret_t r)
{
  switch (r) {
    case RCUTILS_RET_OK: return RMW_RET_OK;
    case RCUTILS_RET_INVALID_ARGUMENT: return RMW_RET_INVALID_ARGUMENT;
    case RCUTILS_RET_BAD_ALLOC: return RMW_RET_BAD_ALLOC;
    default: return RMW_RET_ERROR;
  }
}
rmw_ret_t rmw_check_zero_rmw_string_array(rcutils_string_array_t * array)
{
  if (!array) {
    RMW_SET_ERROR_MSG("string array is null");
    return RMW_RET_ERROR;
  }
  if (array->size != 0 || array->data != nullptr) {
    RMW_SET_ERROR_MSG("string array is not zeroed");
    return RMW_RET_ERROR;
  }
  return RMW_RET_OK;
}
rmw_names_and_types_t rmw_get_zero_initialized_names_and_types(void)
{
  rmw_names_and_types_t x;
  memset(&x, 0, sizeof(x));
  return x;
}
rmw_ret_t rmw_names_and_types_check_zero(rmw_names_and_types_t * n)
{
  if (!n) {
    RMW_SET_ERROR_MSG("names_and_types is null");
    return RMW_RET_INVALID_ARGUMENT;
  }
  if (n->names.size != 0 || n->names.data != nullptr) {
    RMW_SET_ERROR_MSG("names array is not zeroed");
    return RMW_RET_INVALID_ARGUMENT;
  }
  if (n->types != nullptr) {
    RMW_SET_ERROR_MSG("types array is not zeroed");
    return RMW_RET_INVALID_ARGUMENT;
  }
  return RMW_RET_OK;
}
rmw_ret_t rmw_names_and_types_init(rmw_names_and_types_t * n, size_t size, rcutils_allocator_t * allocator)
{
  MAYBE_FAIL(RMW_RET_BAD_ALLOC);
  RCUTILS_CHECK_ALLOCATOR_WITH_MSG(allocator, "allocator is invalid", return RMW_RET_INVALID_ARGUMENT);
  if (!n) {
    RMW_SET_ERROR_MSG("names_and_types is null");
    return RMW_RET_INVALID_ARGUMENT;
  }
  rcutils_ret_t r = rcutils_string_array_init(&n->names, size, allocator);
  if (r != RCUTILS_RET_OK) {
    return rmw_convert_rcutils_ret_to_rmw_ret(r);
  }
  n->types = static_cast<rcutils_string_array_t *>(
    allocator->zero_allocate(size, sizeof(rcutils_string_array_t), allocator->state));
  if (!n->types && size) {
    r = rcutils_string_array_fini(&n->names);
    (void)r;
    RMW_SET_ERROR_MSG("failed to allocate memory for types");
    return RMW_RET_BAD_ALLOC;
  }
  return RMW_RET_OK;
}
rmw_ret_t rmw_names_and_types_fini(rmw_names_and_types_t * n)
{
  if (!n) {
    RMW_SET_ERROR_MSG("names_and_types is null");
    return RMW_RET_INVALID_ARGUMENT;
  }
  if (n->names.size != 0 && !n->types) {
    RMW_SET_ERROR_MSG("invalid: names are set but types are not");
    return RMW_RET_INVALID_ARGUMENT;
  }
  rmw_ret_t overall = RMW_RET_OK;
  if (n->types) {
    for (size_t i = 0; i < n->names.size; ++i) {
      if (rcutils_string_array_fini(&n->types[i]) != RCUTILS_RET_OK) {overall = RMW_RET_ERROR;}
    }
    n->names.allocator.deallocate(n->types, n->names.allocator.state);
    n->types = nullptr;
  }
  if (rcutils_string_array_fini(&n->names) != RCUTILS_RET_OK) {overall = RMW_RET_ERROR;}
  return overall;
}
rmw_topic_endpoint_info_t rmw_get_zero_initialized_topic_endpoint_info(void)
{
  rmw_topic_endpoint_info_t x;
  memset(&x, 0, sizeof(x));
  return x;
}
static rmw_ret_t copy_str(const char ** dst, const char * src, rcutils_allocator_t * allocator)
{
  if (!src) {
    RMW_SET_ERROR_MSG("string is null");
    return RMW_RET_INVALID_ARGUMENT;
  }
  if (!dst) {
    RMW_SET_ERROR_MSG("topic_endpoint_info is null");
    return RMW_RET_INVALID_ARGUMENT;
  }
  if (!allocator) {
    RMW_SET_ERROR_MSG("allocator is null");
    return RMW_RET_INVALID_ARGUMENT;
  }
  size_t n = strlen(src) + 1;
  char * p = static_cast<char *>(allocator->allocate(n, allocator->state));
  if (!p) {
    RMW_SET_ERROR_MSG("failed to allocate memory for string");
    return RMW_RET_BAD_ALLOC;
  }
  memcpy(p, src, n);
  *dst = p;
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_set_topic_type(
  rmw_topic_endpoint_info_t * i, const char * v, rcutils_allocator_t * a)
{
  return copy_str(i ? &i->topic_type : nullptr, v, a);
}
rmw_ret_t rmw_topic_endpoint_info_set_node_name(
  rmw_topic_endpoint_info_t * i, const char * v, rcutils_allocator_t * a)
{
  return copy_str(i ? &i->node_name : nullptr, v, a);
}
rmw_ret_t rmw_topic_endpoint_info_set_node_namespace(
  rmw_topic_endpoint_info_t * i, const char * v, rcutils_allocator_t * a)
{
  return copy_str(i ? &i->node_namespace : nullptr, v, a);
}
rmw_ret_t rmw_topic_endpoint_info_set_topic_type_hash(
  rmw_topic_endpoint_info_t * i, const rosidl_type_hash_t * h)
{
  RMW_CHECK_ARGUMENT_FOR_NULL(i, RMW_RET_INVALID_ARGUMENT);
  RMW_CHECK_ARGUMENT_FOR_NULL(h, RMW_RET_INVALID_ARGUMENT);
  i->topic_type_hash = *h;
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_set_endpoint_type(rmw_topic_endpoint_info_t * i, rmw_endpoint_type_t t)
{
  RMW_CHECK_ARGUMENT_FOR_NULL(i, RMW_RET_INVALID_ARGUMENT);
  i->endpoint_type = t;
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_set_gid(rmw_topic_endpoint_info_t * i, const uint8_t gid[], size_t size)
{
  RMW_CHECK_ARGUMENT_FOR_NULL(i, RMW_RET_INVALID_ARGUMENT);
  if (size > RMW_GID_STORAGE_SIZE) {
    RMW_SET_ERROR_MSG("size is more than RMW_GID_STORAGE_SIZE");
    return RMW_RET_INVALID_ARGUMENT;
  }
  memset(i->endpoint_gid, 0, RMW_GID_STORAGE_SIZE);
  memcpy(i->endpoint_gid, gid, size);
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_set_qos_profile(rmw_topic_endpoint_info_t * i, const rmw_qos_profile_t * q)
{
  RMW_CHECK_ARGUMENT_FOR_NULL(i, RMW_RET_INVALID_ARGUMENT);
  RMW_CHECK_ARGUMENT_FOR_NULL(q, RMW_RET_INVALID_ARGUMENT);
  i->qos_profile = *q;
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_fini(rmw_topic_endpoint_info_t * i, rcutils_allocator_t * a)
{
  RMW_CHECK_ARGUMENT_FOR_NULL(i, RMW_RET_INVALID_ARGUMENT);
  RMW_CHECK_ARGUMENT_FOR_NULL(a, RMW_RET_INVALID_ARGUMENT);
  a->deallocate(const_cast<char *>(i->node_name), a->state);
  a->deallocate(const_cast<char *>(i->node_namespace), a->state);
  a->deallocate(const_cast<char *>(i->topic_type), a->state);
  *i = rmw_get_zero_initialized_topic_endpoint_info();
  return RMW_RET_OK;
}
rmw_topic_endpoint_info_array_t rmw_get_zero_initialized_topic_endpoint_info_array(void)
{
  rmw_topic_endpoint_info_array_t x = {0u, nullptr};
  return x;
}
rmw_ret_t rmw_topic_endpoint_info_array_check_zero(rmw_topic_endpoint_info_array_t * x)
{
  RMW_CHECK_ARGUMENT_FOR_NULL(x, RMW_RET_INVALID_ARGUMENT);
  if (x->size != 0 || x->info_array != nullptr) {
    RMW_SET_ERROR_MSG("topic_endpoint_info_array is not zeroed");
    return RMW_RET_ERROR;
  }
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_array_init_with_size(
  rmw_topic_endpoint_info_array_t * x, size_t size, rcutils_allocator_t * a)
{
  MAYBE_FAIL(RMW_RET_BAD_ALLOC);
  RCUTILS_CHECK_ALLOCATOR_WITH_MSG(a, "allocator is invalid", return RMW_RET_INVALID_ARGUMENT);
  RMW_CHECK_ARGUMENT_FOR_NULL(x, RMW_RET_INVALID_ARGUMENT);
  x->info_array = static_cast<rmw_topic_endpoint_info_t *>(
    a->allocate(sizeof(rmw_topic_endpoint_info_t) * size, a->state));
  if (!x->info_array) {
    RMW_SET_ERROR_MSG("failed to allocate memory for info_array");
    return RMW_RET_BAD_ALLOC;
  }
  x->size = size;
  for (size_t i = 0; i < size; ++i) {
    x->info_array[i] = rmw_get_zero_initialized_topic_endpoint_info();
  }
  return RMW_RET_OK;
}
rmw_ret_t rmw_topic_endpoint_info_array_fini(rmw_topic_endpoint_info_array_t * x, rcutils_allocator_t * a)
{
  RCUTILS_CHECK_ALLOCATOR_WITH_MSG(a, "allocator is invalid", return RMW_RET_INVALID_ARGUMENT);
  RMW_CHECK_ARGUMENT_FOR_NULL(x, RMW_RET_INVALID_ARGUMENT);
  for (size_t i = 0; i < x->size; ++i) {
    rmw_ret_t r = rmw_topic_endpoint_info_fini(&x->info_array[i], a);
    if (r != RMW_RET_OK) {return r;}
  }
  a->deallocate(x->info_array, a->state);
  x->info_array = nullptr;
  x->size = 0;
  return RMW_RET_OK;
}
const char * rmw_qos_durability_policy_to_str(enum rmw_qos_durability_policy_e v)
{
  switch (v) {
    case RMW_QOS_POLICY_DURABILITY_SYSTEM_DEFAULT: return "system_default";
    case RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL: return "transient_local";
    case RMW_QOS_POLICY_DURABILITY_VOLATILE: return "volatile";
    case RMW_QOS_POLICY_DURABILITY_BEST_AVAILABLE: return "best_available";
    default: return nullptr;
  }
}
const char * rmw_qos_history_policy_to_str(enum rmw_qos_history_policy_e v)
{
  switch (v) {
    case RMW_QOS_POLICY_HISTORY_SYSTEM_DEFAULT: return "system_default";
    case RMW_QOS_POLICY_HISTORY_KEEP_LAST: return "keep_last";
    case RMW_QOS_POLICY_HISTORY_KEEP_ALL: return "keep_all";
    default: return nullptr;
  }
}
const char * rmw_qos_liveliness_policy_to_str(enum rmw_qos_liveliness_policy_e v)
{
  switch (v) {
    case RMW_QOS_POLICY_LIVELINESS_SYSTEM_DEFAULT: return "system_default";
    case RMW_QOS_POLICY_LIVELINESS_AUTOMATIC: return "automatic";
    case RMW_QOS_POLICY_LIVELINESS_MANUAL_BY_TOPIC: return "manual_by_topic";
    case RMW_QOS_POLICY_LIVELINESS_BEST_AVAILABLE: return "best_available";
    default: return nullptr;
  }
}
const char * rmw_qos_reliability_policy_to_str(enum rmw_qos_reliability_policy_e v)
{
  switch (v) {
    case RMW_QOS_POLICY_RELIABILITY_SYSTEM_DEFAULT: return "system_default";
    case RMW_QOS_POLICY_RELIABILITY_RELIABLE: return "reliable";
    case RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT: return "best_effort";
    case RMW_QOS_POLICY_RELIABILITY_BEST_AVAILABLE: return "best_available";
    default: return nullptr;
  }
}
bool rmw_time_equal(const rmw_time_t l, const rmw_time_t r)
{
  return rmw_time_total_nsec(l) == rmw_time_total_nsec(r);
}
rmw_duration_t rmw_time_total_nsec(const rmw_time_t t)
{
  const uint64_t maxns = INT64_MAX;
  if (t.sec > maxns / 1000000000ULL) {return INT64_MAX;}
  uint64_t s = t.sec * 1000000000ULL;
  if (t.nsec > maxns - s) {return INT64_MAX;}
  return static_cast<rmw_duration_t>(s + t.nsec);
}
rmw_time_t rmw_time_from_nsec(const rmw_duration_t ns)
{
  if (ns < 0) {rmw_time_t inf = RMW_DURATION_INFINITE; return inf;}
  rmw_time_t t;
  t.sec = static_cast<uint64_t>(ns) / 1000000000ULL;
  t.nsec = static_cast<uint64_t>(ns) % 1000000000ULL;
  return t;
}
rmw_time_t rmw_time_normalize(const rmw_time_t t) {return rmw_time_from_nsec(rmw_time_total_nsec(t));}

}  // extern "C"
