#include "worlds.h"
#include <vector>
#define LIST(X) X(kCacheWorlds, 2) X(kCtxWorlds, 5) X(kNetWorlds, 5) X(kOomWorlds, 2) X(kQosWorlds, 2) X(kSecWorlds, 2)
#define DECL(n, k) extern const World n[];
LIST(DECL)
static std::vector<World> build()
{
  std::vector<World> v;
#define ADD(n, k) for (int i = 0; i < k; ++i) {v.push_back(n[i]);}
  LIST(ADD)
  return v;
}
const std::vector<World> & worlds()
{
  static const std::vector<World> v = build();
  return v;
}
