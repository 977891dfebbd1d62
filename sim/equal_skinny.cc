#include "equal.h"
template struct sim::EqualTable<dart::skinny_ptr>;
template struct sim::TextTable<dart::skinny_ptr>;
