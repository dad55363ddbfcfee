#ifndef RCPPUTILS__SCOPE_EXIT_HPP_
#define RCPPUTILS__SCOPE_EXIT_HPP_
#include <functional>
#include <utility>
#include "rcutils/macros.h"
namespace rcpputils
{
template<typename CallableT>
class scope_exit final
{
public:
  explicit scope_exit(CallableT && callable) : callable_(std::forward<CallableT>(callable)) {}
  scope_exit(const scope_exit &) = delete;
  scope_exit & operator=(const scope_exit &) = delete;
  scope_exit(scope_exit && o) : cancelled_(o.cancelled_), callable_(std::move(o.callable_)) {o.cancelled_ = true;}
  ~scope_exit() {if (!cancelled_) {callable_();}}
  void cancel() {cancelled_ = true;}
private:
  bool cancelled_{false};
  CallableT callable_;
};
template<typename CallableT>
scope_exit<CallableT> make_scope_exit(CallableT && callable)
{
  return scope_exit<CallableT>(std::forward<CallableT>(callable));
}
}  // namespace rcpputils
#define RCPPUTILS_SCOPE_EXIT(code) \
  auto RCUTILS_JOIN(scope_exit_, __LINE__) = ::rcpputils::make_scope_exit([&]() {code;})
#endif
