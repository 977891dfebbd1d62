#include "wire_world.h"
namespace sim { void wire_run_shared(Plan const& p) { Wire<std::shared_ptr, dart::skinny_ptr> w(p); w.run(); } }
