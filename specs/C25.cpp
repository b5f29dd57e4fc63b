// C25: LU decomposition
#include "lin.hpp"
using namespace nytl;
using vc::raw; using vc::eq;
namespace {
template<size_t D, typename T> void lu() {
	Mat<D, D, T> a;
	vc::fill<T>(a, D * D, "a");
	lin::small(raw<T>(a), D * D);
	const auto ca = a;
	double A[D * D];
	for(size_t i = 0; i < D * D; ++i) A[i] = (double) raw<T>(ca)[i];
	if(!vc::replaying()) {
		// natively: not decided by rounding. Regular, or with zero rows or columns only
		double B[D * D];
		for(size_t i = 0; i < D * D; ++i) B[i] = A[i];
		REQUIRE(lin::conditioned(lin::det<D>(B)));
		size_t z = vc::pick(3 * D, "pickzero");
		if(z < 2 * D) for(size_t i = 0; i < D; ++i) {
			size_t k = z < D ? z * D + i : i * D + z - D;
			raw<T>(a)[k] = 0; A[k] = 0;
		}
	}
	const auto in = a;
	auto d = luDecomp(a);
	static_assert(std::is_same_v<decltype(d), LUDecomposition<D, double>>);
	const double* L = raw<double>(d.lower); const double* U = raw<double>(d.upper); const bool* P = raw<bool>(d.perm);
	size_t perm[D];
	for(size_t i = 0; i < D; ++i) {
		int n = 0, m = 0; perm[i] = 0;
		for(size_t j = 0; j < D; ++j) {
			if(P[i * D + j]) { ++n; perm[i] = j; }
			if(P[j * D + i]) ++m;
		}
		ENSURE((n == 1) & (m == 1), "P is a permutation");
	}
	int s = 1;
	for(size_t i = 0; i < D; ++i) for(size_t j = i + 1; j < D; ++j) if(perm[i] > perm[j]) s = -s;
	ENSURE(static_cast<double>(d.sign) == s, "sign of the permutation");
	for(size_t i = 0; i < D; ++i) {
		ENSURE(eq(L[i * D + i], 1), "L has ones on its diagonal");
		for(size_t j = 0; j < D; ++j) {
			if(j > i) ENSURE(eq(L[i * D + j], 0), "L is lower triangular");
			if(j < i) ENSURE(eq(U[i * D + j], 0), "U is upper triangular");
			double x = 0;
			for(size_t k = 0; k < D; ++k) x += L[i * D + k] * U[k * D + j];
			ENSURE(eq(x, A[perm[i] * D + j]), "PA = LU");
		}
	}
	for(size_t i = 0; i < D * D; ++i) ENSURE(raw<T>(a)[i] == raw<T>(in)[i], "the input is kept");
}
}
HARNESS(lu_1) { lu<1, double>(); }
HARNESS(lu_2) { lu<2, double>(); }
HARNESS(lu_3) { lu<3, double>(); }
HARNESS(lu_4) { lu<4, double>(); }
HARNESS(lu_5_thorough) { lu<5, double>(); }
HARNESS(lu_float_2) { lu<2, float>(); }
HARNESS(lu_float_3) { lu<3, float>(); }
HARNESS(lu_int_1) { lu<1, int>(); }
HARNESS(lu_int_2) { lu<2, int>(); }
HARNESS(lu_int_3) { lu<3, int>(); }
