// histories, while other exceptions are in flight, through the public interface against a reference model
// vc-mode: native
// vc-flags: -DPROP=4 -DFLYING
#include "callbacks.hpp"
using namespace hist;
HARNESS(recursive_count) { history<void, CountID, true>(3, 40); }
HARNESS(recursive_tracked) { history<Res, nytl::TrackedConnectionID, true>(3, 40); }
HARNESS(recursive_plain) { history<void, nytl::ConnectionID, true>(3, 40); }
HARNESS(plain_count) { history<void, CountID, false>(4, 40); }
HARNESS(plain_tracked) { history<Res, nytl::TrackedConnectionID, false>(4, 40); }
HARNESS(plain_plain) { history<Res, nytl::ConnectionID, false>(4, 40); }
