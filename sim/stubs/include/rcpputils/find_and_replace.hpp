#ifndef RCPPUTILS__FIND_AND_REPLACE_HPP_
#define RCPPUTILS__FIND_AND_REPLACE_HPP_
#include <string>
namespace rcpputils
{
template<typename InputT, typename FindT, typename ReplaceT>
std::string find_and_replace(const InputT & input, const FindT & find, const ReplaceT & replace)
{
  std::string s = input, f = find, r = replace;
  for (size_t k = 0; !f.empty() && (k = s.find(f, k)) != std::string::npos; k += r.size()) {s.replace(k, f.size(), r);}
  return s;
}
}  // namespace rcpputils
#endif
