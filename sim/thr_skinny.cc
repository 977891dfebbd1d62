#include "thr_world.h"
namespace sim { void thr_run_skinny(Plan const& p) { std::unique_ptr<ThrWorld<dart::skinny_ptr>> w(new ThrWorld<dart::skinny_ptr>(p)); w->run(); } }
