#define CASTS_DEEP
#include "casts_groups.h"
template sim::CastWorld<dart::skinny_ptr>::Group sim::CastWorld<dart::skinny_ptr>::group_deep();
