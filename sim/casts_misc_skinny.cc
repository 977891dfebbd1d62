#define CASTS_MISC
#include "casts_groups.h"
template sim::CastWorld<dart::skinny_ptr>::Group sim::CastWorld<dart::skinny_ptr>::group_misc();
