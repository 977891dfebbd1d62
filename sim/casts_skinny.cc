#include "casts.h"
void sim::casts_run_skinny(Plan const& p) { CastWorld<dart::skinny_ptr> w(p); w.run(); }
