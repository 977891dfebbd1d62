#include "equal.h"
template struct sim::EqualTable<std::shared_ptr>;
template struct sim::TextTable<std::shared_ptr>;
