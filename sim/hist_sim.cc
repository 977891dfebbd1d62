#include "hist_world.h"
namespace sim { void hist_run_sim(Plan const& p, Obs& o) { World<sim_ptr, dart::skinny_ptr> w(p, o); w.run(); } }
