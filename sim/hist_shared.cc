#include "hist_world.h"
namespace sim { void hist_run_shared(Plan const& p, Obs& o) { World<std::shared_ptr, sim_ptr> w(p, o); w.run(); } }
