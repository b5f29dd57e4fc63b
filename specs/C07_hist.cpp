// histories through the public interface against a reference model
// vc-mode: native
// vc-flags: -DPROP=7
#include "callbacks.hpp"
using namespace hist;
HARNESS(plain_count) { history<void, CountID, false>(4, 40); }
HARNESS(plain_tracked) { history<Res, nytl::TrackedConnectionID, false>(4, 40); }
HARNESS(plain_plain) { history<Res, nytl::ConnectionID, false>(4, 40); }
