// C18: hundreds and tens of thousands of components, natively
// vc-mode: native
// vc-noenum: 1
// vc-runs: 100
#include "vc.hpp"
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
#include <memory>
#include <cmath>
using namespace nytl; using vc::raw;
namespace {
template<size_t D, typename T> void all() {
	auto pa = std::make_unique<Vec<D, T>>(), pb = std::make_unique<Vec<D, T>>();
	auto A = raw<T>(*pa), B = raw<T>(*pb);
	auto m = vc::pick(90, "pickfactor") + 2, s = vc::pick(90, "pickoffset");
	for(size_t i = 0; i < D; ++i) { A[i] = T((i * m + s) % 97 + 1); B[i] = T((i * s + m) % 89 + 1); }
	auto &a = *pa, &b = *pb;
	bool sum = true, diff = true, neg = true, scale = true, div = true, under = true;
	using namespace nytl::vec::operators;
	{ auto r = a + b; for(size_t i = 0; i < D; ++i) sum &= raw<T>(r)[i] == A[i] + B[i]; }
	{ auto r = a - b; for(size_t i = 0; i < D; ++i) diff &= raw<T>(r)[i] == A[i] - B[i]; }
	{ auto r = -a; for(size_t i = 0; i < D; ++i) neg &= raw<T>(r)[i] == -A[i]; }
	{ auto r = T(3) * a; for(size_t i = 0; i < D; ++i) scale &= raw<T>(r)[i] == 3 * A[i]; }
	{ auto r = a * T(3); for(size_t i = 0; i < D; ++i) scale &= raw<T>(r)[i] == 3 * A[i]; }
	{ auto r = a / T(3); for(size_t i = 0; i < D; ++i) div &= std::abs(double(raw<T>(r)[i] - A[i] / 3)) < 1e-9; }
	{ auto r = T(100) / a; for(size_t i = 0; i < D; ++i) under &= std::abs(double(raw<T>(r)[i] - 100 / A[i])) < 1e-9; }
	{ auto r = a; r += b; for(size_t i = 0; i < D; ++i) sum &= raw<T>(r)[i] == A[i] + B[i]; }
	{ auto r = a; r -= b; for(size_t i = 0; i < D; ++i) diff &= raw<T>(r)[i] == A[i] - B[i]; }
	{ auto r = a; r *= T(3); for(size_t i = 0; i < D; ++i) scale &= raw<T>(r)[i] == 3 * A[i]; }
	ENSURE(sum, "sum"); ENSURE(diff, "difference"); ENSURE(neg, "negation"); ENSURE(scale, "scaling");
	ENSURE(div, "division by a scalar"); ENSURE(under, "division of a scalar");
	auto c = std::make_unique<Vec<D, T>>(a);
	ENSURE(a == *c && !(a != *c), "equal vectors");
	size_t i = vc::pick(D, "pickcomponent");
	(*c)[i] += 1;
	ENSURE(!(a == *c) && a != *c && !(*c == a), "vectors that differ in one component");
	size_t n = 0; bool order = true;
	for(auto& x : a) order &= &x == A + n++;
	for(size_t k = 0; k < D; ++k) order &= &a[k] == A + k;
	ENSURE(order && n == D, "iteration and indexed access in order");
}
}
HARNESS(many_300) { all<300, int>(); }
HARNESS(many_300r) { all<300, double>(); }
HARNESS(many_70000) { all<70000, int>(); }
