// C26: determinants, inverses, linear solves
#include "lin.hpp"
using namespace nytl;
using vc::raw; using vc::eq;
namespace {
template<size_t D, typename T> void determinants() {
	Mat<D, D, T> a;
	vc::fill<T>(a, D * D, "a");
	auto A = raw<T>(a);
	lin::small(A, D * D);
	T ref = lin::det<D, T>(A);
	auto lu = luDecomp(a);
	ENSURE(eq(nytl::determinant(a), ref), "determinant of a matrix");
	ENSURE(eq(nytl::determinant(lu), ref), "determinant of a decomposition");
	REQUIRE(lin::conditioned(ref));
	ENSURE(nytl::invertible(a) == (ref != 0), "invertible iff the determinant is not zero");
}
// singular matrices: a row or column zero (exact natively as well)
template<size_t D, typename T> void singular() {
	Mat<D, D, T> a;
	vc::fill<T>(a, D * D, "a");
	auto A = raw<T>(a);
	size_t z = vc::pick(2 * D, "pickzero");
	for(size_t i = 0; i < D; ++i) A[z < D ? z * D + i : i * D + z - D] = 0;
	ENSURE(eq(nytl::determinant(a), 0), "determinant of a matrix with a zero row or column");
	ENSURE(!nytl::invertible(a), "a matrix with a zero row or column is not invertible");
}
template<size_t D, typename T> void inverses() {
	Mat<D, D, T> a;
	vc::fill<T>(a, D * D, "a");
	auto A = raw<T>(a);
	lin::small(A, D * D);
	T ref = lin::det<D, T>(A);
	REQUIRE(ref != 0); REQUIRE(lin::conditioned(ref));
	auto i = nytl::inverse(a);
	lin::isInverse<D, T>(A, raw<double>(i));
}
template<size_t D, typename T, typename TB> void solves() {
	lin::Dec<D, T> d;
	Vec<D, TB> b;
	vc::fill<TB>(b, D, "b");
	auto x = nytl::luEvaluate(d.d, b);
	for(size_t i = 0; i < D; ++i) {
		double s = 0;
		for(size_t k = 0; k < D; ++k) s += d.A[i * D + k] * x[k];
		ENSURE(eq(s, raw<TB>(b)[i]), "solving with a decomposition");
	}
}
template<size_t D, typename T, typename TB> void triangular() {
	Mat<D, D, T> l {}, u {};
	auto L = raw<T>(l), U = raw<T>(u);
	for(size_t i = 0; i < D; ++i) for(size_t j = 0; j < D; ++j) {
		if(j <= i) L[i * D + j] = vc::any<T>("l");
		if(j >= i) U[i * D + j] = vc::any<T>("u");
		if(j == i) {
			REQUIRE((U[i * D + i] != 0) & (L[i * D + i] != 0));
			REQUIRE(vc::replaying() || (std::abs(U[i * D + i]) > 0.4 && std::abs(L[i * D + i]) > 0.4));
		}
	}
	Vec<D, TB> b;
	vc::fill<TB>(b, D, "b");
	auto x = nytl::luEvaluate(l, u, b);
	double y[D];
	for(size_t i = 0; i < D; ++i) { y[i] = 0; for(size_t k = i; k < D; ++k) y[i] += U[i * D + k] * x[k]; }
	for(size_t i = 0; i < D; ++i) {
		double s = 0;
		for(size_t k = 0; k <= i; ++k) s += L[i * D + k] * y[k];
		ENSURE(eq(s, raw<TB>(b)[i]), "solving with triangular factors");
	}
}
template<size_t D, typename T> void decInverse() {
	lin::Dec<D, T> d;
	auto i = nytl::inverse(d.d);
	lin::isInverse<D, double>(d.A, raw<double>(i));
}
template<size_t D, typename T> void decDet() {
	lin::Dec<D, T> d;
	ENSURE(eq(nytl::determinant(d.d), lin::det<D, double>(d.A)), "determinant of a decomposition");
}
}
#define S(n) \
	HARNESS(singular_##n) { singular<n, double>(); } \
	HARNESS(decInverse_##n) { decInverse<n, double>(); } \
	HARNESS(decDeterminant_##n) { decDet<n, double>(); } \
	HARNESS(solve_##n) { solves<n, double, double>(); } \
	HARNESS(triangular_##n) { triangular<n, double, double>(); }
#define Q(n) \
	HARNESS(determinant_##n) { determinants<n, double>(); } \
	HARNESS(inverse_##n) { inverses<n, double>(); }
S(1) S(2) S(3) S(4) Q(1) Q(2) Q(3)
HARNESS(determinant_float_2) { determinants<2, float>(); }
HARNESS(determinant_float_3) { determinants<3, float>(); }
HARNESS(inverse_float_2) { inverses<2, float>(); }
HARNESS(inverse_float_3) { inverses<3, float>(); }
HARNESS(solve_float_3) { solves<3, float, double>(); }
HARNESS(solve_mixed_3) { solves<3, double, float>(); }
HARNESS(triangular_float_3) { triangular<3, float, float>(); }
HARNESS(triangular_5) { triangular<5, double, double>(); }
