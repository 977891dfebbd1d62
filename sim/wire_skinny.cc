#include "wire_world.h"
namespace sim { void wire_run_skinny(Plan const& p) { Wire<dart::skinny_ptr, std::shared_ptr> w(p); w.run(); } }
