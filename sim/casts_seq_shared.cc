#define CASTS_SEQ
#include "casts_groups.h"
template sim::CastWorld<std::shared_ptr>::Group sim::CastWorld<std::shared_ptr>::group_seq();
