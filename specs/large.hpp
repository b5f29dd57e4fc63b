// Larger matrices than those of the proofs, natively. The properties are stated over the reals: only inputs for which no
// operation rounds count (the floating-point environment tells).
#pragma once
#include "lin.hpp"
#include <cfenv>
#pragma STDC FENV_ACCESS ON

namespace large {
inline void begin() { std::feclearexcept(FE_ALL_EXCEPT); }
inline bool exact() { return !std::fetestexcept(FE_INEXACT); }

/// small integers, many of them zero; some rows and columns depend on others
template<typename M> void any(M& m, size_t R, size_t C) {
	auto a = vc::raw<double>(m);
	size_t density = 2 + vc::pick(6, "pickdensity");
	for(size_t i = 0; i < R * C; ++i) {
		size_t k = vc::pick(8, "pickentry");
		static constexpr double v[] {1, -1, 2, -2, 1, -1, 4, 3};
		a[i] = vc::pick(8, "pickzero") < density ? v[k] : 0;
	}
	size_t same = vc::pick(4, "pickdependent");
	if(same == 1 && R > 1) {
		size_t r = vc::pick(R, "pickrow"), o = (r + 1 + vc::pick(R - 1, "pickother")) % R;
		for(size_t c = 0; c < C; ++c) a[r * C + c] = 2 * a[o * C + c];
	} else if(same == 2 && C > 1) {
		size_t c = vc::pick(C, "pickcolumn"), o = (c + 1 + vc::pick(C - 1, "pickother")) % C;
		for(size_t r = 0; r < R; ++r) a[r * C + c] = a[r * C + o];
	}
}
/// a triangular matrix with its rows permuted: every step but a few needs a swap
template<size_t D, typename M> void permuted(M& m) {
	auto a = vc::raw<double>(m);
	size_t p[D];
	lin::permutation<D>(p);
	for(size_t i = 0; i < D; ++i) for(size_t j = 0; j < D; ++j)
		a[p[i] * D + j] = i == j ? (vc::pick(2, "picksign") ? 1 : -2) : i < j && vc::pick(3, "pickzero") == 0 ? (double) vc::pick(3, "pickentry") - 1 : 0;
}
}
