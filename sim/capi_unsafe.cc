#include "capi_cpp.h"
namespace sim { CppTable const cpp_unsafe = table<dart::unsafe_ptr>(); }
