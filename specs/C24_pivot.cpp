// C24: the contract of pivot that the verification of rowEcholon relies on, proved on the real pivot
#include "vc.hpp"
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>
using namespace nytl;
using vc::raw; using vc::eq;
namespace {
template<size_t R, size_t C, typename T> void pivotContract(bool after) {
	Mat<R, C, T> a;
	vc::fill<T>(a, R * C, "a");
	const auto ca = a;
	auto A = raw<T>(ca);
	size_t row = vc::pick(R, "pickrow"), column = vc::pick(C, "pickcol");
	T res = nytl::pivot(a, row, column, after);
	auto B = raw<T>(a);
	ENSURE(eq(res, B[row * C + column]), "pivot returns the new entry");
	bool any = false, zero = true;
	for(size_t k = after ? row : 0; k < R; ++k) {
		bool is = true;
		for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c)
			is = is & eq(B[r * C + c], A[(r == row ? k : r == k ? row : r) * C + c]);
		any = any | is;
		zero = zero & (A[k * C + column] == 0);
	}
	ENSURE(any, "the given row is swapped with one considered row, others kept");
	ENSURE((res != 0) | zero, "the new entry is zero only if all considered ones are");
}

}
using R = vc::Real;
#ifdef VC_NATIVE
using FR = vc::Real;
#else
using FR = float;
#endif
#define P(r, c) HARNESS(pivotContract_##r##c) { pivotContract<r, c, R>(vc::pick(2, "pickafter")); }
P(1, 1) P(1, 2) P(2, 1) P(2, 2) P(1, 3) P(3, 1) P(2, 3) P(3, 2) P(3, 3)
P(1, 4) P(4, 1) P(2, 4) P(4, 2) P(4, 3) P(2, 5) P(3, 4)
HARNESS(pivotContract_44_thorough) { pivotContract<4, 4, R>(vc::pick(2, "pickafter")); }
HARNESS(pivotContract_float_23) { pivotContract<2, 3, FR>(vc::pick(2, "pickafter")); }
