// the operations of the plain callback from every state of its invariant
// vc-internal: 1
// vc-flags: -DPROP=4
#include "plain_contracts.hpp"
using namespace plain;
HARNESS(plain_call_0) { callContract<0>(); }
HARNESS(plain_call_1) { callContract<1>(); }
HARNESS(plain_call_2) { callContract<2>(); }
HARNESS(plain_call_3) { callContract<3>(); }
