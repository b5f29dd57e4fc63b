// histories through the public interface against a reference model
// vc-mode: native
// vc-flags: -DPROP=1
#include "callbacks.hpp"
using namespace hist;
HARNESS(recursive_count) { history<void, CountID, true>(3, 40); }
HARNESS(recursive_tracked) { history<Res, nytl::TrackedConnectionID, true>(3, 40); }
HARNESS(recursive_plain) { history<void, nytl::ConnectionID, true>(3, 40); }
