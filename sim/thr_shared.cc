#include "thr_world.h"
namespace sim { void thr_run_shared(Plan const& p) { std::unique_ptr<ThrWorld<std::shared_ptr>> w(new ThrWorld<std::shared_ptr>(p)); w->run(); } }
