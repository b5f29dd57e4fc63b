// C18: vector arithmetic is component-wise
// vc-noround: mixed_
// vc-tol: 1e-9
#include "vc.hpp"
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
using namespace nytl;
using vc::raw; using vc::eq;

namespace {
template<typename R, size_t D, typename T, typename V> bool same(const V& v, const T* p) {
	bool r = true;
	for(size_t i = 0; i < D; ++i) r = r & eq((double) raw<R>(v)[i], (double) p[i]);
	return r;
}

template<size_t D, typename T1, typename T2> void arith() {
	using R = decltype(T1{} + T2{});
	Vec<D, T1> a; Vec<D, T2> b;
	vc::fill<T1>(a, D, "a"); vc::fill<T2>(b, D, "b");
	const Vec<D, T1> ca = a; const Vec<D, T2> cb = b;
	T2 f = vc::any<T2>("f");
	auto A = raw<T1>(ca); auto B = raw<T2>(cb);
	if(std::is_integral_v<T1> != std::is_integral_v<T2>) { // keeps results representable
		REQUIRE((double(f) <= 1000) & (double(f) >= -1000));
		for(size_t i = 0; i < D; ++i) REQUIRE((double(A[i]) <= 1000) & (double(A[i]) >= -1000) & (double(B[i]) <= 1000) & (double(B[i]) >= -1000));
	}
	auto s = a + b;
	static_assert(sizeof(s) == sizeof(R) * D);
	auto d = a - b;
	auto n = -a;
	auto p = +a;
	auto m = f * a;
	{ using namespace nytl::vec::operators;
	  auto m2 = a * f;
	  for(size_t i = 0; i < D; ++i) ENSURE(eq(raw<R>(m2)[i], (R)(A[i] * f)), "v * scalar");
	}
	for(size_t i = 0; i < D; ++i) {
		ENSURE(eq(raw<R>(s)[i], (R)(A[i] + B[i])), "a + b component");
		ENSURE(eq(raw<R>(d)[i], (R)(A[i] - B[i])), "a - b component");
		ENSURE(eq(raw<T1>(n)[i], (T1)(-A[i])), "-a component");
		ENSURE(eq(raw<T1>(p)[i], A[i]), "+a component");
		ENSURE(eq(raw<R>(m)[i], (R)(f * A[i])), "scalar * v component");
		ENSURE(eq(raw<T1>(a)[i], A[i]) & eq(raw<T2>(b)[i], B[i]), "operands unchanged");
	}
	auto x = a;
	auto& rx = (x += b);
	ENSURE(&rx == &x, "+= returns its operand");
	for(size_t i = 0; i < D; ++i) ENSURE(eq(raw<T1>(x)[i], (T1)(A[i] + B[i])), "+= component");
	auto y = a;
	auto& ry = (y -= b);
	ENSURE(&ry == &y, "-= returns its operand");
	for(size_t i = 0; i < D; ++i) ENSURE(eq(raw<T1>(y)[i], (T1)(A[i] - B[i])), "-= component");
	auto z = a;
	auto& rz = (z *= f);
	ENSURE(&rz == &z, "*= returns its operand");
	for(size_t i = 0; i < D; ++i) ENSURE(eq(raw<T1>(z)[i], (T1)(A[i] * f)), "*= component");
	for(size_t i = 0; i < D; ++i) ENSURE(eq(raw<T2>(b)[i], B[i]), "right operand unchanged");
	// aliasing
	auto u = a; u += u;
	for(size_t i = 0; i < D; ++i) ENSURE(eq(raw<T1>(u)[i], (T1)(A[i] + A[i])), "a += a");
	auto w = a; w -= w;
	for(size_t i = 0; i < D; ++i) ENSURE(eq(raw<T1>(w)[i], (T1)(A[i] - A[i])), "a -= a");
	if constexpr(std::is_same_v<T1, T2> && D < 100) {
		auto s = a; size_t k = vc::pick(D, "which"); s *= s[k];
		for(size_t i = 0; i < D; ++i) ENSURE(eq(raw<T1>(s)[i], (T1)(A[i] * A[k])), "a *= a[k]");
	}
}

template<size_t D, typename T, typename F = T> void divide() {
	Vec<D, T> a;
	vc::fill<T>(a, D, "a");
	const auto ca = a;
	auto A = raw<T>(ca);
	F f = vc::any<F>("f");
	for(size_t i = 0; i < D; ++i) REQUIRE(!eq(A[i], T(0)));
	REQUIRE(!eq(f, F(0)));
	if(F(-1) < F(0) && std::is_integral_v<F>) REQUIRE(f != F(-1));
	if(T(-1) < T(0) && std::is_integral_v<T>) for(size_t i = 0; i < D; ++i) REQUIRE(A[i] != T(-1));
	using namespace nytl::vec::operators;
	auto q = a / f;
	auto r = f / a;
	for(size_t i = 0; i < D; ++i) {
		ENSURE(eq(raw<decltype(A[0] / f)>(q)[i], A[i] / f), "v / scalar component");
		ENSURE(eq(raw<decltype(f / A[0])>(r)[i], f / A[i]), "scalar / v component");
		ENSURE(eq(raw<T>(a)[i], A[i]), "operand unchanged");
	}
}

template<size_t D, typename T> void equality() {
	Vec<D, T> a, b;
	vc::fill<T>(a, D, "a"); vc::fill<T>(b, D, "b");
	bool all = true;
	for(size_t i = 0; i < D; ++i) all = all & (raw<T>(a)[i] == raw<T>(b)[i]);
	ENSURE((a == b) == all, "== holds exactly when all components are equal");
	ENSURE((a != b) == !all, "!= is the negation of ==");
	ENSURE(a == a, "== is reflexive");
}

template<size_t D, typename T1, typename T2> void equalityMixed() {
	Vec<D, T1> a; Vec<D, T2> b;
	vc::fill<T1>(a, D, "a"); vc::fill<T2>(b, D, "b");
	bool all = true;
	for(size_t i = 0; i < D; ++i) all = all & ((double) raw<T1>(a)[i] == (double) raw<T2>(b)[i]);
	ENSURE((a == b) == all, "== holds exactly when all components are equal");
	ENSURE((b == a) == all, "== is symmetric");
	ENSURE((a != b) == !all, "!= is the negation of ==");
}

template<size_t D, typename T> void access() {
	Vec<D, T> a;
	vc::fill<T>(a, D, "a");
	const auto& c = a;
	auto A = raw<T>(a);
	ENSURE(a.size() == D && Vec<D, T>::size() == D, "size");
	ENSURE(a.data() == A && c.data() == A, "data");
	size_t k = 0;
	for(auto it = a.begin(); it != a.end(); ++it, ++k) ENSURE(&*it == A + k, "iteration in order");
	ENSURE(k == D, "iteration visits all components");
	k = 0;
	for(auto& x : c) { ENSURE(&x == A + k, "const iteration in order"); ++k; }
	ENSURE(k == D, "const iteration visits all components");
	for(size_t i = 0; i < D; ++i) {
		ENSURE(&a[i] == A + i, "indexed access");
		ENSURE(&c[i] == A + i, "const indexed access");
	}
	ENSURE(&a.front() == A && &a.back() == A + D - 1, "front and back");
	ENSURE(&c.front() == A && &c.back() == A + D - 1, "const front and back");
	T x = vc::any<T>("x");
	size_t i = vc::pick(D);
	const auto old = a;
	a[i] = x;
	for(size_t j = 0; j < D; ++j) ENSURE(eq(A[j], j == i ? x : raw<T>(old)[j]), "assignment through [] changes one component");
}
}

#define INST(D) \
	HARNESS(arith_real_##D) { arith<D, double, double>(); } \
	HARNESS(arith_int_##D) { arith<D, std::int32_t, std::int32_t>(); } \
	HARNESS(arith_mixed_##D) { arith<D, double, float>(); } \
	HARNESS(arith_mixed2_##D) { arith<D, float, double>(); } \
	HARNESS(arith_uint_##D) { arith<D, std::uint32_t, std::uint32_t>(); } \
	HARNESS(arith_intreal_##D) { arith<D, std::int32_t, double>(); } \
	HARNESS(arith_realint_##D) { arith<D, float, std::int32_t>(); } \
	HARNESS(arith_narrow_##D) { arith<D, std::uint8_t, std::int32_t>(); } \
	HARNESS(arith_wide_##D) { arith<D, std::int64_t, std::int16_t>(); } \
	HARNESS(divide_real_##D) { divide<D, double>(); } \
	HARNESS(divide_int_##D) { divide<D, std::int32_t>(); } \
	HARNESS(divide_intreal_##D) { divide<D, std::int32_t, double>(); } \
	HARNESS(divide_realint_##D) { divide<D, double, std::int32_t>(); } \
	HARNESS(divide_uint_##D) { divide<D, std::uint32_t>(); } \
	HARNESS(equality_real_##D) { equality<D, double>(); } \
	HARNESS(equality_int_##D) { equality<D, std::int32_t>(); } \
	HARNESS(equality_mixed_##D) { equalityMixed<D, std::int32_t, double>(); } \
	HARNESS(equality_mixed2_##D) { equalityMixed<D, float, double>(); } \
	HARNESS(access_real_##D) { access<D, double>(); } \
	HARNESS(access_byte_##D) { access<D, std::uint8_t>(); }

#ifndef MANY
INST(1) INST(2) INST(3) INST(4) INST(5) INST(7) INST(9)
#endif
