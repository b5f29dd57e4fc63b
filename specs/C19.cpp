// C19: products, norms, angles
// vc-noround: products_mixed|cross_mixed
// vc-tol: 1e-9
#include "vc.hpp"
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
using namespace nytl;
using vc::raw; using vc::eq; using vc::le; using vc::lt;

namespace {
constexpr double PI_UP = 3.1415926535897936;

template<size_t D, typename T1, typename T2> void products() {
	using R = decltype(T1{} * T2{});
	Vec<D, T1> a; Vec<D, T2> b;
	vc::fill<T1>(a, D, "a"); vc::fill<T2>(b, D, "b");
	const auto ca = a; const auto cb = b;
	auto A = raw<T1>(ca); auto B = raw<T2>(cb);
	decltype(T1{} + T1{}) s = 0, m = 1;
	R d = 0;
	for(size_t i = 0; i < D; ++i) { s += A[i]; m *= A[i]; d += A[i] * B[i]; }
	ENSURE(eq(sum(a), s), "sum of the components");
	ENSURE(eq(nytl::multiply(a), m), "product of the components");
	ENSURE(eq(dot(a, b), d), "dot product");
	auto mi = mirror(a, Vec<D, T1>(a));
	for(size_t i = 0; i < D; ++i) ENSURE(eq(raw<T1>(mi)[i], A[i]), "a point mirrored at itself");
	Vec<D, T1> p; vc::fill<T1>(p, D, "p");
	const auto cp = p;
	auto mp = mirror(a, p);
	for(size_t i = 0; i < D; ++i) ENSURE(eq(raw<T1>(mp)[i], (T1)(A[i] + (A[i] - raw<T1>(cp)[i]))), "mirrored point");
	for(size_t i = 0; i < D; ++i) ENSURE(eq(raw<T1>(a)[i], A[i]) & eq(raw<T2>(b)[i], B[i]) & eq(raw<T1>(p)[i], raw<T1>(cp)[i]), "operands unchanged");
}

template<size_t D, typename T1, typename T2> void norms() {
	Vec<D, T1> a; Vec<D, T2> b;
	vc::fill<T1>(a, D, "a"); vc::fill<T2>(b, D, "b");
	auto A = raw<T1>(a); auto B = raw<T2>(b);
	double aa = 0, dd = 0;
	for(size_t i = 0; i < D; ++i) { // the sums of squares are computed in the type of the components
		if(std::is_integral_v<T1>) REQUIRE((A[i] <= 1000) & (A[i] >= -1000));
		if(std::is_integral_v<T2>) REQUIRE((B[i] <= 1000) & (B[i] >= -1000));
	}
	if constexpr(std::is_integral_v<T1>) { int s = 0; for(size_t i = 0; i < D; ++i) s += A[i] * A[i]; aa = s; }
	else for(size_t i = 0; i < D; ++i) aa += (double) A[i] * A[i];
	for(size_t i = 0; i < D; ++i) { double t = (double) A[i] - B[i]; dd += t * t; }
	double l = length(a), e = distance(a, b);
	ENSURE(le(0, l) & eq(l * l, aa), "length is the root of the sum of squares");
	ENSURE(le(0, e) & eq(e * e, dd), "distance is the length of the difference");
}

template<size_t D, typename T> void normalise() {
	Vec<D, T> a;
	vc::fill<T>(a, D, "a");
	const auto ca = a;
	auto A = raw<T>(ca);
	double aa = 0;
	for(size_t i = 0; i < D; ++i) aa += (double) A[i] * A[i];
	REQUIRE(!eq(aa, 0));
	auto n = normalized(a);
	for(size_t i = 0; i < D; ++i) ENSURE(eq(raw<T>(a)[i], A[i]), "normalized leaves its operand unchanged");
	normalize(a);
	double l = length(ca);
	double nn = 0;
	for(size_t i = 0; i < D; ++i) {
		double x = raw<T>(n)[i];
		nn += x * x;
		ENSURE(eq(x * l, A[i]), "normalized keeps the direction");
		ENSURE(eq(raw<T>(a)[i], x), "normalize in place equals normalized");
	}
	ENSURE(eq(nn, 1), "normalized has length one");
	ENSURE(lt(0, l), "length of a non-null vector");
}

template<size_t D, typename T1, typename T2> void angles() {
	Vec<D, T1> a; Vec<D, T2> b;
	vc::fill<T1>(a, D, "a"); vc::fill<T2>(b, D, "b");
	auto A = raw<T1>(a); auto B = raw<T2>(b);
	double aa = 0, bb = 0, d = 0, cs = 0;
	for(size_t i = 0; i < D; ++i) { aa += (double) A[i] * A[i]; bb += (double) B[i] * B[i]; d += (double) A[i] * B[i]; }
	REQUIRE(!eq(aa, 0) & !eq(bb, 0));
	for(size_t i = 0; i < D; ++i) for(size_t j = 0; j < i; ++j) {
		double t = (double) A[i] * B[j] - (double) A[j] * B[i];
		t = vc::let(t);
		ENSURE(le(0, t * t), "lemma: square");
		cs += t * t;
	}
	ENSURE(le(0, cs), "lemma: sum of squares");
	cs = vc::let(cs);
	ENSURE(le(0, cs), "lemma: sum of squares");
	double la = length(a), lb = length(b);
	ENSURE(lt(0, la), "lemma: positive length of a");
	ENSURE(lt(0, lb), "lemma: positive length of b");
	double v = d / (la * lb), c2 = cs / ((aa * bb));
	double k = vc::let(la * lb), n = vc::let(aa * bb), e = vc::let(d), q = vc::let(v), r = vc::let(c2);
	ENSURE(eq(e * e + cs, n), "lemma: Lagrange's identity");
	ENSURE(lt(0, k), "lemma: positive product of lengths");
	ENSURE(eq(k * k, n), "lemma: product of squares");
	ENSURE(eq(q * k, e), "lemma: quotient");
	ENSURE(eq(r * n, cs), "lemma: quotient of squares");
	ENSURE(lt(0, n), "lemma: positive product of squares");
	ENSURE(le(0, r), "lemma: Cauchy-Schwarz");
	ENSURE(eq(q * q + r, 1), "lemma: normalised");
	ENSURE(le(q, 1) & le(-1, q), "lemma: quotient within [-1, 1]");
	ENSURE(le(v, 1) & le(-1, v), "lemma: quotient within [-1, 1]");
	double x = angle(a, b);
	ENSURE(le(0, x) & le(x, PI_UP), "angle within [0, pi]");
	ENSURE(eq(std::cos(x), v), "cosine of the angle is dot over lengths");
}

template<size_t D, typename T> void anglesNormed() {
	Vec<D, T> a, b;
	vc::unit<T>(raw<T>(a), D, "a"); vc::unit<T>(raw<T>(b), D, "b");
	auto A = raw<T>(a); auto B = raw<T>(b);
	double d = 0, p = 0, m = 0;
	for(size_t i = 0; i < D; ++i) {
		double s = vc::let((double) A[i] + B[i]), t = vc::let((double) A[i] - B[i]);
		d += (double) A[i] * B[i];
		ENSURE(le(0, s * s), "lemma: square");
		ENSURE(le(0, t * t), "lemma: square");
		p += s * s; m += t * t;
	}
	ENSURE(le(0, p), "lemma: sum of squares");
	ENSURE(le(0, m), "lemma: sum of squares");
	ENSURE(eq(p, 2 + 2 * d) & eq(m, 2 - 2 * d), "lemma: polarisation");
	p = vc::let(p); m = vc::let(m);
	ENSURE(le(d, 1) & le(-1, d), "lemma: dot within [-1, 1]");
	double x = angleNormed(a, b);
	ENSURE(le(0, x) & le(x, PI_UP), "angleNormed within [0, pi]");
	ENSURE(eq(std::cos(x), d), "cosine of angleNormed is the dot product");
}

template<typename T1, typename T2> void crosses() {
	using R = decltype(T1{} * T2{} - T1{} * T2{});
	Vec<3, T1> a; Vec<3, T2> b;
	vc::fill<T1>(a, 3, "a"); vc::fill<T2>(b, 3, "b");
	auto A = raw<T1>(a); auto B = raw<T2>(b);
	auto c = cross(a, b);
	auto C = raw<R>(c);
	ENSURE(eq(C[0], (R)(A[1] * B[2] - A[2] * B[1])), "cross x");
	ENSURE(eq(C[1], (R)(A[2] * B[0] - A[0] * B[2])), "cross y");
	ENSURE(eq(C[2], (R)(A[0] * B[1] - A[1] * B[0])), "cross z");
	Vec<2, T1> u; Vec<2, T2> v;
	vc::fill<T1>(u, 2, "u"); vc::fill<T2>(v, 2, "v");
	auto U = raw<T1>(u); auto V = raw<T2>(v);
	ENSURE(eq(cross(u, v), (R)(U[0] * V[1] - U[1] * V[0])), "2D cross");
}

template<typename T> void normals() {
	Vec<2, T> a;
	vc::fill<T>(a, 2, "a");
	T x = raw<T>(a)[0], y = raw<T>(a)[1];
	auto is = [](const Vec<2, T>& v, T p, T q) { return eq(raw<T>(v)[0], p) & eq(raw<T>(v)[1], q); };
	ENSURE(is(rho::lnormal(a), -y, x), "right-handed left normal");
	ENSURE(is(rho::rnormal(a), y, -x), "right-handed right normal");
	ENSURE(is(lho::lnormal(a), y, -x), "left-handed left normal");
	ENSURE(is(lho::rnormal(a), -y, x), "left-handed right normal");
	ENSURE(is(a, x, y), "operand unchanged");
}
}

#define INST(D) \
	HARNESS(products_real_##D) { products<D, double, double>(); } \
	HARNESS(products_mixed_##D) { products<D, float, double>(); } \
	HARNESS(products_mixed2_##D) { products<D, std::int32_t, double>(); } \
	HARNESS(products_mixed3_##D) { products<D, double, std::int32_t>(); } \
	HARNESS(products_int_##D) { products<D, std::int32_t, std::int32_t>(); } \
	HARNESS(products_uint_##D) { products<D, std::uint32_t, std::uint32_t>(); } \
	HARNESS(norms_##D) { norms<D, double, double>(); } \
	HARNESS(norms_mixed_##D) { norms<D, double, float>(); } \
	HARNESS(normalise_##D) { normalise<D, double>(); } \
	HARNESS(normalise_float_##D) { normalise<D, float>(); } \
	HARNESS(anglesNormed_##D) { anglesNormed<D, double>(); } \
	HARNESS(angles_##D) { angles<D, double, double>(); } \
	HARNESS(angles_mixed_##D) { angles<D, float, double>(); }

INST(1) INST(2) INST(3) INST(4) INST(5) INST(8)
#define NM(D) \
	HARNESS(norms_mixed2_##D) { norms<D, std::int16_t, double>(); } \
	HARNESS(norms_mixed3_##D) { norms<D, double, std::int16_t>(); }
NM(1) NM(2) NM(3) NM(4)
HARNESS(products_real_7) { products<7, double, double>(); }
HARNESS(products_int_7) { products<7, std::int32_t, std::int32_t>(); }
HARNESS(norms_7) { norms<7, double, double>(); }
HARNESS(normalise_7) { normalise<7, double>(); }
HARNESS(cross_real) { crosses<double, double>(); }
HARNESS(cross_mixed) { crosses<float, double>(); }
HARNESS(cross_mixed2) { crosses<std::int32_t, double>(); }
HARNESS(cross_mixed3) { crosses<double, std::int32_t>(); }
HARNESS(cross_int) { crosses<std::int32_t, std::int32_t>(); }
HARNESS(normals_real) { normals<double>(); }
HARNESS(normals_float) { normals<float>(); }
HARNESS(normals_int) { normals<std::int32_t>(); }
