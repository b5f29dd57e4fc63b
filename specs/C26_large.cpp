// C26: larger matrices
// vc-mode: native
// vc-noenum: 1
#include "large.hpp"
using namespace nytl; using vc::raw;
namespace {
template<size_t D> void large_() {
	Mat<D, D, double> a;
	if(vc::pick(3, "pickkind") == 0) large::permuted<D>(a); else large::any(a, D, D);
	const auto in = a;
	auto A = raw<double>(in);
	Vec<D, double> b;
	for(size_t i = 0; i < D; ++i) raw<double>(b)[i] = (double) vc::pick(9, "pickb") - 4;
	double ref = lin::det<D, double>(A);       // integers
	large::begin();
	double x = nytl::determinant(in);
	REQUIRE(large::exact());
	ENSURE(x == ref, "determinant of a matrix");
	ENSURE(nytl::invertible(in) == (ref != 0), "invertible iff the determinant is not zero");
	auto d = nytl::luDecomp(in);
	double y = nytl::determinant(d);
	REQUIRE(large::exact());
	ENSURE(y == ref, "determinant of a decomposition");
	if(ref == 0) return;
	auto s = nytl::luEvaluate(d, b);
	REQUIRE(large::exact());
	for(size_t i = 0; i < D; ++i) {
		double t = 0;
		for(size_t k = 0; k < D; ++k) t += A[i * D + k] * raw<double>(s)[k];
		ENSURE(t == raw<double>(b)[i], "solving with a decomposition");
	}
	auto i = nytl::inverse(in), j = nytl::inverse(d);
	REQUIRE(large::exact());
	lin::isInverse<D, double>(A, raw<double>(i)); lin::isInverse<D, double>(A, raw<double>(j));
	vc_nontrivial();
}
}
HARNESS(large_5) { large_<5>(); }
HARNESS(large_6) { large_<6>(); }
