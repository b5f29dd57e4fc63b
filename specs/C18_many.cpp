// C18: the same contracts for hundreds of components
// vc-tol: 1e-9
// vc-flags: -DMANY
#include "C18.cpp"
HARNESS(arith_int_260) { arith<260, std::int32_t, std::int32_t>(); }
HARNESS(divide_real_260) { divide<260, double>(); }
HARNESS(divide_int_260_thorough) { divide<260, std::int32_t>(); }
HARNESS(arith_real_260_thorough) { arith<260, double, double>(); }
HARNESS(equality_int_260_thorough) { equality<260, std::int32_t>(); }
