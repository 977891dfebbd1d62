#define CASTS_MAP
#include "casts_groups.h"
template sim::CastWorld<dart::skinny_ptr>::Group sim::CastWorld<dart::skinny_ptr>::group_map();
