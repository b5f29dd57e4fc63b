// the operations of the recursive callback for lists of any length
// vc-internal: 1
// vc-flags: -DPROP=1
// vc-loop: ^@_ZN4nytl17RecursiveCallbackI.*E4callE -> lc_call(it)
// vc-loop: ^@_ZN4nytl17RecursiveCallbackI.*E9removeOldEv#0 -> lc_front(it, removed?)
// vc-loop: ^@_ZN4nytl17RecursiveCallbackI.*E9removeOldEv#1 -> lc_rest(it, next, removed?)
// vc-loop: ^@_ZN4nytl17RecursiveCallbackI.*E10disconnectE -> lc_search(it, next?)
// vc-loop: ^@_ZN4nytl17RecursiveCallbackI.*E5clearEv -> lc_clear(__begin|it)
// vc-loop: ^@_ZN4nytl17RecursiveCallbackI.*ED2Ev -> lc_clear(__begin|it)
// vc-loop: ^@_ZNSt14_Fwd_list_baseI.*14_M_erase_afterEPSt19_Fwd_list_node_baseS -> lc_erase(__curr)
// vc-contract: ^_ZSt8distanceI -> lc_distance -- assumed: any value, only used for size()
// vc-contract: ^_ZNSt6vectorIiSaIiEE9push_backEOi$ -> lc_pushed -- verified by C06_results
#include "list_contracts.hpp"
using namespace lists;
HARNESS(any_remove) { removeContract(); }
HARNESS(any_disconnect_idle) { disconnectContract<false>(); }
HARNESS(any_disconnect_running) { disconnectContract<true>(); }
HARNESS(any_clear_idle) { clearContract<false>(); }
HARNESS(any_clear_running) { clearContract<true>(); }
HARNESS(any_add_idle) { addContract<false>(); }
HARNESS(any_add_running) { addContract<true>(); }
