#include "routes.h"
template struct sim::RouteTable<sim_ptr>;
