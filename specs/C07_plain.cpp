// the operations of the plain callback from every state of its invariant
// vc-internal: 1
// vc-flags: -DPROP=7
#include "plain_contracts.hpp"
using namespace plain;
HARNESS(plain_call_0) { callContract<0>(); }
HARNESS(plain_call_1) { callContract<1>(); }
HARNESS(plain_call_2) { callContract<2>(); }
HARNESS(plain_call_3) { callContract<3>(); }
HARNESS(plain_disconnect_0) { disconnectContract<0>(); }
HARNESS(plain_disconnect_1) { disconnectContract<1>(); }
HARNESS(plain_disconnect_2) { disconnectContract<2>(); }
HARNESS(plain_disconnect_3) { disconnectContract<3>(); }
HARNESS(plain_clear_0) { clearContract<0>(); }
HARNESS(plain_clear_1) { clearContract<1>(); }
HARNESS(plain_clear_3) { clearContract<3>(); }
HARNESS(plain_add_0) { addContract<0>(); }
HARNESS(plain_add_1) { addContract<1>(); }
HARNESS(plain_add_2) { addContract<2>(); }
HARNESS(plain_add_3) { addContract<3>(); }
HARNESS(plain_destructor_0) { destructorContract<0>(); }
HARNESS(plain_destructor_1) { destructorContract<1>(); }
HARNESS(plain_destructor_3) { destructorContract<3>(); }
