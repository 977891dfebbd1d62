#include "hist_world.h"
namespace sim { void hist_run_skinny(Plan const& p, Obs& o) { World<dart::skinny_ptr, dart::unsafe_ptr> w(p, o); w.run(); } }
