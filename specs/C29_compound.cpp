// C29: approximate comparison of complex numbers, vectors and matrices, against the contract of the scalar one
// vc-pure: ^_ZN4nytleqEdRKNS_6ApproxIdEE$ v d0+d8 -- verified by C29: its own definition
// vc-pure: ^_ZN4nytleqEfRKNS_6ApproxIfEE$ v f0+d8 -- verified by C29: its own definition
#include "vc.hpp"
#include <cmath>
#include <nytl/approx.hpp>
#include <nytl/approxVec.hpp>
using namespace nytl;
using vc::raw;

namespace {
template<typename T> void near(T* p, const T* q, int n) {
	// native runs only: make near values likely
	if(vc::replaying()) return;
	for(int i = 0; i < n; ++i) if((unsigned) (q[i] * 16) % 8) p[i] = q[i];
}
template<typename T, typename OT> void cplx() {
	T a[2]; OT b[2];
	for(int i = 0; i < 2; ++i) { a[i] = vc::any<T>("a"); b[i] = vc::any<OT>("b"); }
	double e = vc::any<double>("epsilon");
	if(!vc::replaying()) for(int i = 0; i < 2; ++i) if((unsigned) (a[i] * 16) % 8) b[i] = (OT) a[i];
	std::complex<OT> x(b[0], b[1]);
	auto v = approx(std::complex<T>(a[0], a[1]), e);
	bool want = ((T) b[0] == approx(a[0], e)) & ((T) b[1] == approx(a[1], e));
	ENSURE((x == v) == want, "equal exactly when both parts are");
	ENSURE((v == x) == want, "operand order does not matter");
	ENSURE((x != v) == !want, "unequal is the negation");
	ENSURE((v != x) == !want, "unequal is the negation in either order");
	ENSURE(approx(std::complex<T>(a[0], a[1])).epsilon == 0.00000001, "default epsilon");
}
template<size_t D, typename T> void vector() {
	Vec<D, T> a, b;
	vc::fill<T>(a, D, "a"); vc::fill<T>(b, D, "b");
	near(raw<T>(b), raw<T>(a), D);
	double e = vc::any<double>("epsilon");
	auto v = approx(a, e);
	bool want = true;
	for(size_t i = 0; i < D; ++i) want = want & (raw<T>(b)[i] == approx(raw<T>(a)[i], e));
	ENSURE((b == v) == want, "equal exactly when all components are");
	ENSURE((v == b) == want, "operand order does not matter");
	ENSURE((b != v) == !want, "unequal is the negation");
	ENSURE((v != b) == !want, "unequal is the negation in either order");
	ENSURE(approx(a).epsilon == 0.00000001, "default epsilon");
}
template<size_t D, size_t D2, typename T> void vecDim() {
	Vec<D, T> a; Vec<D2, T> b;
	vc::fill<T>(a, D, "a"); vc::fill<T>(b, D2, "b");
	double e = vc::any<double>("epsilon");
	auto v = approx(a, e);
	ENSURE(!(b == v) & !(v == b), "vectors of different dimension are never equal");
	ENSURE((b != v) & (v != b), "vectors of different dimension are always unequal");
}
template<size_t R, size_t C, typename T> void matrix() {
	Mat<R, C, T> a, b;
	vc::fill<T>(a, R * C, "a"); vc::fill<T>(b, R * C, "b");
	near(raw<T>(b), raw<T>(a), R * C);
	double e = vc::any<double>("epsilon");
	auto v = approx(a, e);
	bool want = true;
	for(size_t i = 0; i < R * C; ++i) want = want & (raw<T>(b)[i] == approx(raw<T>(a)[i], e));
	ENSURE((b == v) == want, "equal exactly when all entries are");
	ENSURE((v == b) == want, "operand order does not matter");
	ENSURE((b != v) == !want, "unequal is the negation");
	ENSURE((v != b) == !want, "unequal is the negation in either order");
	ENSURE(approx(a).epsilon == 0.00000001, "default epsilon");
}
}
HARNESS(complex_double) { cplx<double, double>(); }
HARNESS(complex_float) { cplx<float, float>(); }
HARNESS(complex_mixed) { cplx<double, float>(); }
#define V(d) HARNESS(vec_##d) { vector<d, double>(); } HARNESS(vecf_##d) { vector<d, float>(); }
V(1) V(2) V(3) V(4) V(6) V(9)
HARNESS(dim_23) { vecDim<2, 3, double>(); }
HARNESS(dim_32) { vecDim<3, 2, double>(); }
HARNESS(dim_41) { vecDim<4, 1, float>(); }
#define M(r, c) HARNESS(mat_##r##c) { matrix<r, c, double>(); } HARNESS(matf_##r##c) { matrix<r, c, float>(); }
M(1, 1) M(2, 2) M(3, 3) M(4, 4) M(2, 3) M(3, 2) M(1, 4) M(4, 1) M(7, 6)
