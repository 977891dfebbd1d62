#include "equal.h"
template struct sim::EqualTable<sim_ptr>;
template struct sim::TextTable<sim_ptr>;
