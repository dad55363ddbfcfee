#pragma once
#include "engine.h"
#include "sut.h"
#include "model.h"

struct World
{
  const char * prop;    // property this workload decides
  const char * name;    // world name (as in replay files)
  int weight;
  void (* gen)(sim::Plan &, sim::Rng &);
  void (* run)(sim::Plan &);
};
const std::vector<World> & worlds();
