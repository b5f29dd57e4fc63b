// the operations of the recursive callback from every state of its invariant
// vc-internal: 1
// vc-flags: -DPROP=4
#include "callback_contracts.hpp"
using namespace contract;
HARNESS(call_0_idle) { callContract<0, false>(); }
HARNESS(call_0_running) { callContract<0, true>(); }
HARNESS(call_1_idle) { callContract<1, false>(); }
HARNESS(call_1_running) { callContract<1, true>(); }
HARNESS(call_2_idle) { callContract<2, false>(); }
HARNESS(call_2_running) { callContract<2, true>(); }
HARNESS(call_3_idle_thorough) { callContract<3, false>(0); }
HARNESS(call_3_running_thorough) { callContract<3, true>(); }
HARNESS(rely_is_transitive) { transitive(); }
