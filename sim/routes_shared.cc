#include "routes.h"
template struct sim::RouteTable<std::shared_ptr>;
