// the operations of the recursive callback from every state of its invariant
// vc-internal: 1
// vc-flags: -DPROP=1
#include "callback_contracts.hpp"
using namespace contract;
HARNESS(call_0_idle) { callContract<0, false>(); }
HARNESS(call_0_running) { callContract<0, true>(); }
HARNESS(call_1_idle) { callContract<1, false>(); }
HARNESS(call_1_running) { callContract<1, true>(); }
HARNESS(call_2_idle) { callContract<2, false>(); }
HARNESS(call_2_running) { callContract<2, true>(); }
HARNESS(call_3_idle_thorough) { callContract<3, false>(0); }
HARNESS(call_3_running_thorough) { callContract<3, true>(); }
HARNESS(disconnect_0_idle) { disconnectContract<0, false>(); }
HARNESS(disconnect_0_running) { disconnectContract<0, true>(); }
HARNESS(disconnect_1_idle) { disconnectContract<1, false>(); }
HARNESS(disconnect_1_running) { disconnectContract<1, true>(); }
HARNESS(disconnect_3_idle) { disconnectContract<3, false>(); }
HARNESS(disconnect_3_running) { disconnectContract<3, true>(); }
HARNESS(clear_0_idle) { clearContract<0, false>(); }
HARNESS(clear_0_running) { clearContract<0, true>(); }
HARNESS(clear_1_idle) { clearContract<1, false>(); }
HARNESS(clear_1_running) { clearContract<1, true>(); }
HARNESS(clear_3_idle) { clearContract<3, false>(); }
HARNESS(clear_3_running) { clearContract<3, true>(); }
HARNESS(add_0_idle) { addContract<0, false>(); }
HARNESS(add_0_running) { addContract<0, true>(); }
HARNESS(add_1_idle) { addContract<1, false>(); }
HARNESS(add_1_running) { addContract<1, true>(); }
HARNESS(add_3_idle) { addContract<3, false>(); }
HARNESS(add_3_running) { addContract<3, true>(); }
HARNESS(rely_is_transitive) { transitive(); }
