// C27: more dimensions, natively
// vc-mode: native
// vc-noenum: 1
// vc-tol: 1e-9
#define LARGE
#include "C27.cpp"
