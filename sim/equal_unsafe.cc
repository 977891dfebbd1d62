#include "equal.h"
template struct sim::EqualTable<dart::unsafe_ptr>;
template struct sim::TextTable<dart::unsafe_ptr>;
