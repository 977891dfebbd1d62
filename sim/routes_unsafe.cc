#include "routes.h"
template struct sim::RouteTable<dart::unsafe_ptr>;
