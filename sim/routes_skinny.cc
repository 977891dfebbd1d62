#include "routes.h"
template struct sim::RouteTable<dart::skinny_ptr>;
