#include "casts.h"
void sim::casts_run_shared(Plan const& p) { CastWorld<std::shared_ptr> w(p); w.run(); }
