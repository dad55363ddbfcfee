#pragma once
#include "rmw/macros.h"
