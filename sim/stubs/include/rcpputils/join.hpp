#ifndef RCPPUTILS__JOIN_HPP_
#define RCPPUTILS__JOIN_HPP_
#include <sstream>
#include <string>
namespace rcpputils
{
template<typename ContainerT, typename DelimT>
std::string join(const ContainerT & c, const DelimT & delim)
{
  std::ostringstream ss;
  bool first = true;
  for (const auto & x : c) {if (!first) {ss << delim;} ss << x; first = false;}
  return ss.str();
}
}  // namespace rcpputils
#endif
