// C26: determinant and inverse of a matrix, against the contract of luDecomp (verified by C25)
// vc-contract: ^_ZN4nytl8luDecomp(I.*?EE)NS_ -> _ZN4spec8luDecomp\1 -- verified by C26_lu and C25
#include "lin.hpp"
using namespace nytl;
using vc::raw; using vc::eq;

namespace spec {
// An arbitrary P, L, U. The matrices handed to the callers are built from it as inv(P) * L * U; since luDecomp has
// such a result for every matrix (C25), all pairs of matrix and decomposition are covered.
void* ghost;
template<size_t D, typename T>
LUDecomposition<D, double> luDecomp(const Mat<D, D, T>& mat) {
	auto& g = *static_cast<lin::Dec<D, double>*>(ghost);
	for(size_t i = 0; i < D * D; ++i) ENSURE(eq(raw<T>(mat)[i], g.A[i]), "the matrix itself is decomposed");
	return g.d;
}
template<size_t D, typename T> void use() { auto volatile p = &spec::luDecomp<D, T>; (void) p; }
}
namespace {
template<size_t D, typename T> void determinants() {
	spec::use<D, T>();
	lin::Dec<D, double> d(false);
	lin::small(raw<double>(d.d.lower), D * D);
	lin::small(raw<double>(d.d.upper), D * D);
	spec::ghost = &d;
	Mat<D, D, T> a;
	for(size_t i = 0; i < D * D; ++i) raw<T>(a)[i] = (T) d.A[i];
	double ref = lin::det<D, double>(d.A);
	ENSURE(eq(nytl::determinant(a), ref), "determinant of a matrix");
	REQUIRE(lin::conditioned(ref));
	ENSURE(nytl::invertible(a) == (ref != 0), "invertible iff the determinant is not zero");
}
template<size_t D, typename T> void inverses() {
	spec::use<D, T>();
	lin::Dec<D, double> d;
	lin::small(raw<double>(d.d.lower), D * D);
	lin::small(raw<double>(d.d.upper), D * D);
	spec::ghost = &d;
	Mat<D, D, T> a;
	for(size_t i = 0; i < D * D; ++i) raw<T>(a)[i] = (T) d.A[i];
	auto i = nytl::inverse(a);
	lin::isInverse<D, double>(d.A, raw<double>(i));
}
}
HARNESS(determinantMod_3) { determinants<3, double>(); }
HARNESS(determinantMod_4) { determinants<4, double>(); }
HARNESS(determinantMod_float_3) { determinants<3, float>(); }
HARNESS(inverseMod_3) { inverses<3, double>(); }
HARNESS(inverseMod_4) { inverses<4, double>(); }
HARNESS(inverseMod_float_4) { inverses<4, float>(); }
