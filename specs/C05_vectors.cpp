// the operations of the plain callback for any number of handlers
// vc-internal: 1
// vc-flags: -DPROP=5
// vc-loop: ^@_ZN4nytl8CallbackI.*E4callE -> vx_call(__begin|it, __end?)
// vc-loop: ^@_ZN4nytl8CallbackI.*E5clearEv -> vx_notify(__begin|it, __end?)
// vc-loop: ^@_ZN4nytl8CallbackI.*ED2Ev -> vx_notify(__begin|it, __end?)
// vc-contract: ^_ZNSt6vectorIiSaIiEE9push_backEOi$ -> vx_pushed -- verified by C06_results
// vc-contract: ^_ZNKSt6vectorIN4nytl8CallbackI.*E4sizeEv$ -> vx_size -- assumed: the standard (its code is run for up to three elements by the _plain suites)
// vc-contract: ^_ZNSt6vectorIN4nytl8CallbackI.*E5clearEv$ -> vx_clear -- assumed: the standard (its code is run for up to three elements by the _plain suites)
// vc-contract: ^_ZNSt6vectorIN4nytl8CallbackI.*ED2Ev$ -> vx_destroy -- assumed: the standard (its code is run for up to three elements by the _plain suites)
// vc-contract: ^_ZNSt6vectorIN4nytl8CallbackI.*E12emplace_backIJEEE -> vx_emplace -- assumed: the standard (its code is run for up to three elements by the _plain suites)
// vc-contract: ^_ZNSt6vectorIN4nytl8CallbackI.*E12emplace_backIJS -> vx_emplace_move -- assumed: the standard (its code is run for up to three elements by the _plain suites)
// vc-contract: ^_ZNSt6vectorIN4nytl8CallbackI.*E12emplace_backIJRKS -> vx_emplace_copy -- assumed: the standard (its code is run for up to three elements by the _plain suites)
// vc-contract: ^_ZNSt6vectorIN4nytl8CallbackI.*E9push_backERK -> vx_emplace_copy -- assumed: the standard (its code is run for up to three elements by the _plain suites)
// vc-contract: ^_ZNSt6vectorIN4nytl8CallbackI.*E5eraseE -> vx_erase -- assumed: the standard (its code is run for up to three elements by the _plain suites)
// vc-contract: ^_ZSt11equal_rangeI -> vx_range -- assumed: the standard (its code is run for up to three elements by the _plain suites)
// vc-contract: ^_ZSt11lower_boundI -> vx_lower -- assumed: the standard (its code is run for up to three elements by the _plain suites)
#include "vector_contracts.hpp"
using namespace vectors;
HARNESS(any_call) { callContract(); }
HARNESS(any_clear) { clearContract(); }
HARNESS(any_destructor) { destructorContract(); }
HARNESS(any_release) { releaseContract(); }
HARNESS(any_add) { addContract(); }
HARNESS(any_disconnect) { disconnectContract(); }
