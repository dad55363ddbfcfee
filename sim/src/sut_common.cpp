#include "sut.h"
#include <sstream>

namespace sut
{
const Dur kBestDur = {9223372036ULL, 854775806ULL};
const Dur kInfDur = {9223372036ULL, 854775807ULL};

std::string Gid::str() const
{
  static const char * x = "0123456789abcdef";
  std::string s;
  for (int i = 0; i < 16; ++i) {s += x[b[i] >> 4]; s += x[b[i] & 15];}
  return s;
}
Gid mkgid(uint32_t n, int style)
{
  // Style decides which bytes carry the number, so that no byte is irrelevant to comparisons.
  Gid g;
  switch (style & 3) {
    case 0: for (int i = 0; i < 4; ++i) {g.b[15 - i] = static_cast<uint8_t>(n >> (8 * i));} g.b[0] = 1; break;
    case 1: for (int i = 0; i < 4; ++i) {g.b[i] = static_cast<uint8_t>(n >> (8 * i));} g.b[15] = 0xc1; break;
    case 2: g.b[7] = static_cast<uint8_t>(n); g.b[8] = static_cast<uint8_t>(n >> 8); g.b[0] = 0xff; break;
    default: for (int i = 0; i < 16; ++i) {g.b[i] = static_cast<uint8_t>((n * 2654435761u) >> ((i * 5) % 24));}
      g.b[3] = static_cast<uint8_t>(n); g.b[12] = static_cast<uint8_t>(n >> 8); break;
  }
  return g;
}
std::string Qos::str() const
{
  std::ostringstream o;
  o << "{h" << history << " d" << depth << " r" << rel << " D" << dur << " dl" << deadline.s << "." << deadline.ns <<
    " ls" << lifespan.s << "." << lifespan.ns << " l" << liv << " le" << lease.s << "." << lease.ns << (avoid ? " a" : "") << "}";
  return o.str();
}
std::string Hash::str() const
{
  static const char * x = "0123456789abcdef";
  std::string s = "v" + std::to_string(version) + ":";
  for (int i = 0; i < 32; ++i) {s += x[v[i] >> 4]; s += x[v[i] & 15];}
  return s;
}
std::string PMsg::str() const
{
  std::string s = gid.str() + "[";
  for (const auto & n : nodes) {
    s += n.ns + "|" + n.name + "(r:";
    for (const auto & g : n.readers) {s += g.str() + ",";}
    s += "w:";
    for (const auto & g : n.writers) {s += g.str() + ",";}
    s += ");";
  }
  return s + "]";
}
std::string EpInfo::str() const
{
  return ns + "|" + node + " " + type + " " + hash.str() + " k" + std::to_string(kind) + " " + gid.str() + " " + qos.str();
}
}  // namespace sut
