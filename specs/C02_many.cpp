// tens of thousands of registrations, through the public interface
// vc-mode: native
// vc-noenum: 1
// vc-runs: 4
#include "many.hpp"
HARNESS(recursive_many) { many::history<nytl::RecursiveCallback<void(int)>>(140000); vc_noleak(); }
