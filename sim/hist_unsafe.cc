#include "hist_world.h"
namespace sim { void hist_run_unsafe(Plan const& p, Obs& o) { World<dart::unsafe_ptr, std::shared_ptr> w(p, o); w.run(); } }
