// C28: more dimensions, natively
// vc-mode: native
// vc-noenum: 1
#define LARGE
#include "C28.cpp"
