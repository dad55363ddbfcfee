#pragma once
#include "rcutils/allocator.h"
