// C22: matrix arithmetic
// vc-noround: mixed
// vc-tol: 1e-9
#include "vc.hpp"
#include <nytl/mat.hpp>
#include <nytl/vecOps.hpp>
#include <nytl/matOps.hpp>
using namespace nytl;
using vc::raw; using vc::eq;

namespace {
template<size_t R, size_t M, size_t C, typename T1, typename T2> void product() {
	using T = decltype(T1{} * T2{} + T1{} * T2{});
	Mat<R, M, T1> a; Mat<M, C, T2> b; Vec<M, T2> v;
	vc::fill<T1>(a, R * M, "a"); vc::fill<T2>(b, M * C, "b"); vc::fill<T2>(v, M, "v");
	const auto ca = a; const auto cb = b; const auto cv = v;
	auto A = raw<T1>(ca); auto B = raw<T2>(cb); auto X = raw<T2>(cv);
	auto p = a * b;
	auto q = a * v;
	static_assert(p.rows() == R && p.cols() == C && q.size() == R);
	for(size_t r = 0; r < R; ++r) {
		for(size_t c = 0; c < C; ++c) {
			T s = 0;
			for(size_t i = 0; i < M; ++i) s += A[r * M + i] * B[i * C + c];
			ENSURE(eq(raw<T>(p)[r * C + c], s), "entry of the matrix product");
		}
		T s = 0;
		for(size_t i = 0; i < M; ++i) s += A[r * M + i] * X[i];
		ENSURE(eq(raw<T>(q)[r], s), "component of the matrix-vector product");
	}
	for(size_t i = 0; i < R * M; ++i) ENSURE(eq(raw<T1>(a)[i], A[i]), "left operand unchanged");
	for(size_t i = 0; i < M * C; ++i) ENSURE(eq(raw<T2>(b)[i], B[i]), "right operand unchanged");
}

template<size_t R, size_t C, typename T1, typename T2> void linear() {
	using T = decltype(T1{} + T2{});
	constexpr size_t N = R * C;
	Mat<R, C, T1> a; Mat<R, C, T2> b;
	vc::fill<T1>(a, N, "a"); vc::fill<T2>(b, N, "b");
	T2 f = vc::any<T2>("f");
	const auto ca = a; const auto cb = b;
	auto A = raw<T1>(ca); auto B = raw<T2>(cb);
	if(std::is_integral_v<T1> != std::is_integral_v<T2>) { // keeps results representable
		REQUIRE((double(f) <= 1000) & (double(f) >= -1000));
		for(size_t i = 0; i < N; ++i) REQUIRE((double(A[i]) <= 1000) & (double(A[i]) >= -1000) & (double(B[i]) <= 1000) & (double(B[i]) >= -1000));
	}
	auto s = a + b;
	auto d = a - b;
	auto n = -a;
	auto m = f * a;
	auto x = a, y = a, z = a;
	auto& rx = (x += b);
	auto& ry = (y -= b);
	auto& rz = (z *= f);
	ENSURE((&rx == &x) & (&ry == &y) & (&rz == &z), "assigning forms return their operand");
	auto u = a, w = a;
	u += u; w -= w;
	for(size_t i = 0; i < N; ++i) {
		ENSURE(eq(raw<T>(s)[i], (T)(A[i] + B[i])), "a + b");
		ENSURE(eq(raw<T>(d)[i], (T)(A[i] - B[i])), "a - b");
		ENSURE(eq(raw<T1>(n)[i], (T1)(-A[i])), "-a");
		ENSURE(eq(raw<T>(m)[i], (T)(f * A[i])), "f * a");
		ENSURE(eq(raw<T1>(x)[i], (T1)(A[i] + B[i])), "a += b");
		ENSURE(eq(raw<T1>(y)[i], (T1)(A[i] - B[i])), "a -= b");
		ENSURE(eq(raw<T1>(z)[i], (T1)(A[i] * f)), "a *= f");
		ENSURE(eq(raw<T1>(u)[i], (T1)(A[i] + A[i])), "a += a");
		ENSURE(eq(raw<T1>(w)[i], T1(0)), "a -= a");
		ENSURE(eq(raw<T1>(a)[i], A[i]) & eq(raw<T2>(b)[i], B[i]), "operands unchanged");
	}
	if constexpr(std::is_same_v<T1, T2>) {
		auto s = a; size_t p = vc::pick(R, "row"), q = vc::pick(C, "column"); s *= s[p][q];
		for(size_t i = 0; i < R * C; ++i) ENSURE(eq(raw<T1>(s)[i], (T1)(A[i] * A[p * C + q])), "a *= a[p][q]");
	}
}

template<size_t D, typename T1, typename T2> void square() {
	Mat<D, D, T1> a; Mat<D, D, T2> b;
	vc::fill<T1>(a, D * D, "a"); vc::fill<T2>(b, D * D, "b");
	const auto ca = a; const auto cb = b;
	auto A = raw<T1>(ca); auto B = raw<T2>(cb);
	auto& ra = (a *= b);
	ENSURE(&ra == &a, "*= returns its operand");
	for(size_t r = 0; r < D; ++r) for(size_t c = 0; c < D; ++c) {
		T1 s = 0;
		for(size_t i = 0; i < D; ++i) s += A[r * D + i] * B[i * D + c];
		ENSURE(eq(raw<T1>(a)[r * D + c], s), "entry of a *= b");
		ENSURE(eq(raw<T2>(b)[r * D + c], B[r * D + c]), "right operand unchanged");
	}
}

template<size_t D, typename T> void selfProduct() {
	Mat<D, D, T> a;
	vc::fill<T>(a, D * D, "a");
	const auto ca = a;
	auto A = raw<T>(ca);
	a *= a;
	for(size_t r = 0; r < D; ++r) for(size_t c = 0; c < D; ++c) {
		T s = 0;
		for(size_t i = 0; i < D; ++i) s += A[r * D + i] * A[i * D + c];
		ENSURE(eq(raw<T>(a)[r * D + c], s), "entry of a *= a");
	}
}

template<size_t R, size_t C, typename T1, typename T2> void equalityMixed() {
	constexpr size_t N = R * C;
	Mat<R, C, T1> a; Mat<R, C, T2> b;
	vc::fill<T1>(a, N, "a"); vc::fill<T2>(b, N, "b");
	bool all = true;
	for(size_t i = 0; i < N; ++i) all = all & ((double) raw<T1>(a)[i] == (double) raw<T2>(b)[i]);
	ENSURE((a == b) == all, "== holds exactly when all entries are equal");
	ENSURE((a != b) == !all, "!= is the negation of ==");
}

template<size_t R, size_t C, typename T> void equality() {
	constexpr size_t N = R * C;
	Mat<R, C, T> a, b;
	vc::fill<T>(a, N, "a"); vc::fill<T>(b, N, "b");
	bool all = true;
	for(size_t i = 0; i < N; ++i) all = all & (raw<T>(a)[i] == raw<T>(b)[i]);
	ENSURE((a == b) == all, "== holds exactly when all entries are equal");
	ENSURE((a != b) == !all, "!= is the negation of ==");
	ENSURE(a == a, "== is reflexive");
}
}

#define P(r, m, c) \
	HARNESS(product_##r##m##c) { product<r, m, c, double, double>(); } \
	HARNESS(product_mixed_##r##m##c) { product<r, m, c, float, double>(); } \
	HARNESS(product_mixed2_##r##m##c) { product<r, m, c, std::int32_t, double>(); } \
	HARNESS(product_mixed3_##r##m##c) { product<r, m, c, double, std::int32_t>(); } \
	HARNESS(product_uint_##r##m##c) { product<r, m, c, std::uint32_t, std::uint32_t>(); }
P(1, 1, 1) P(2, 2, 2) P(3, 3, 3) P(4, 4, 4) P(1, 3, 2) P(2, 3, 1) P(2, 3, 4) P(4, 3, 2) P(3, 2, 3) P(4, 1, 4) P(2, 4, 2) P(5, 3, 2) P(3, 4, 5) P(7, 6, 8)
#define L(r, c) \
	HARNESS(linear_##r##c) { linear<r, c, double, double>(); } \
	HARNESS(linear_mixed_##r##c) { linear<r, c, double, float>(); } \
	HARNESS(linear_mixed2_##r##c) { linear<r, c, std::int32_t, double>(); } \
	HARNESS(linear_mixed3_##r##c) { linear<r, c, double, std::int32_t>(); } \
	HARNESS(equality_mixed_##r##c) { equalityMixed<r, c, std::int32_t, double>(); } \
	HARNESS(linear_int_##r##c) { linear<r, c, std::int32_t, std::int32_t>(); } \
	HARNESS(equality_int_##r##c) { equality<r, c, std::int32_t>(); } \
	HARNESS(equality_##r##c) { equality<r, c, double>(); }
L(1, 1) L(2, 2) L(3, 3) L(2, 3) L(3, 2) L(1, 4) L(4, 1) L(2, 4) L(3, 4) L(7, 8)
HARNESS(linear_44) { linear<4, 4, double, double>(); }
HARNESS(linear_int_44) { linear<4, 4, std::int32_t, std::int32_t>(); }
HARNESS(equality_int_44) { equality<4, 4, std::int32_t>(); }
#define S(d) \
	HARNESS(square_##d) { square<d, double, double>(); } \
	HARNESS(square_mixed_##d) { square<d, double, float>(); } \
	HARNESS(square_mixed2_##d) { square<d, double, std::int32_t>(); } \
	HARNESS(square_uint_##d) { square<d, std::uint32_t, std::uint32_t>(); } \
	HARNESS(self_##d) { selfProduct<d, double>(); } \
	HARNESS(self_uint_##d) { selfProduct<d, std::uint32_t>(); }
S(1) S(2) S(3) S(4) S(5) S(7)
