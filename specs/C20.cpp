// C20: component-wise vector functions
// vc-noround: mixed
// vc-tol: 1e-9
#include "vc.hpp"
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
#include <cmath>
using namespace nytl;
using vc::raw; using vc::eq; using vc::le; using vc::lt;
namespace cw = nytl::vec::cw;

namespace {
template<size_t D, typename T> void minmax() {
	Vec<D, T> a, b;
	vc::fill<T>(a, D, "a"); vc::fill<T>(b, D, "b");
	const auto ca = a, cb = b;
	auto A = raw<T>(ca); auto B = raw<T>(cb);
	auto mx = cw::max(a, b), mn = cw::min(a, b);
	for(size_t i = 0; i < D; ++i) {
		auto x = raw<T>(mx)[i], y = raw<T>(mn)[i];
		ENSURE((x >= A[i]) & (x >= B[i]) & ((x == A[i]) | (x == B[i])), "component-wise maximum");
		ENSURE((y <= A[i]) & (y <= B[i]) & ((y == A[i]) | (y == B[i])), "component-wise minimum");
		ENSURE(eq(raw<T>(a)[i], A[i]) & eq(raw<T>(b)[i], B[i]), "operands unchanged");
	}
}

template<size_t D, typename T> void minmaxScalar() {
	Vec<D, T> a;
	vc::fill<T>(a, D, "a");
	const auto ca = a;
	auto A = raw<T>(ca);
	T s = vc::any<T>("s");
	auto ms = cw::max(a, s), ns = cw::min(a, s);
	for(size_t i = 0; i < D; ++i) {
		auto z = raw<T>(ms)[i], w = raw<T>(ns)[i];
		ENSURE((z >= A[i]) & (z >= s) & ((z == A[i]) | (z == s)), "maximum with a scalar");
		ENSURE((w <= A[i]) & (w <= s) & ((w == A[i]) | (w == s)), "minimum with a scalar");
		ENSURE(eq(raw<T>(a)[i], A[i]), "operand unchanged");
	}
}

template<size_t D, typename T1, typename T2> void mulDiv() {
	using R = decltype(T1{} * T2{});
	Vec<D, T1> a; Vec<D, T2> b;
	vc::fill<T1>(a, D, "a"); vc::fill<T2>(b, D, "b");
	const auto ca = a; const auto cb = b;
	auto A = raw<T1>(ca); auto B = raw<T2>(cb);
	for(size_t i = 0; i < D; ++i) {
		REQUIRE(!eq(B[i], T2(0)));
		if(std::is_signed_v<T2> && std::is_integral_v<T2>) REQUIRE(B[i] != T2(-1));
	}
	auto m = cw::multiply(a, b);
	auto d = cw::divide(a, b);
	for(size_t i = 0; i < D; ++i) {
		ENSURE(eq(raw<R>(m)[i], (R)(A[i] * B[i])), "component-wise product");
		ENSURE(eq(raw<R>(d)[i], (R)(A[i] / B[i])), "component-wise quotient");
	}
	{
		using namespace cw::operators;
		auto m2 = a * b;
		auto d2 = a / b;
		auto x = a, y = a;
		auto& rx = (x *= b);
		auto& ry = (y /= b);
		ENSURE((&rx == &x) & (&ry == &y), "assigning forms return their operand");
		for(size_t i = 0; i < D; ++i) {
			ENSURE(eq(raw<R>(m2)[i], (R)(A[i] * B[i])), "operator* component");
			ENSURE(eq(raw<R>(d2)[i], (R)(A[i] / B[i])), "operator/ component");
			ENSURE(eq(raw<T1>(x)[i], (T1)(A[i] * B[i])), "operator*= component");
			ENSURE(eq(raw<T1>(y)[i], (T1)(A[i] / B[i])), "operator/= component");
		}
		auto z = a;
		z *= z;
		for(size_t i = 0; i < D; ++i) ENSURE(eq(raw<T1>(z)[i], (T1)(A[i] * A[i])), "a *= a");
	}
	for(size_t i = 0; i < D; ++i) ENSURE(eq(raw<T1>(a)[i], A[i]) & eq(raw<T2>(b)[i], B[i]), "operands unchanged");
}

template<size_t D, typename T1, typename T2> void scalarOps() {
	Vec<D, T1> a;
	vc::fill<T1>(a, D, "a");
	const auto ca = a;
	auto A = raw<T1>(ca);
	T2 s = vc::any<T2>("s");
	using R = decltype(T1{} + T2{});
	using namespace cw::operators;
	auto p = a + s;
	auto q = s + a;
	auto m = a - s;
	auto n = s - a;
	for(size_t i = 0; i < D; ++i) {
		ENSURE(eq(raw<R>(p)[i], (R)(A[i] + s)), "v + scalar");
		ENSURE(eq(raw<R>(q)[i], (R)(s + A[i])), "scalar + v");
		ENSURE(eq(raw<R>(m)[i], (R)(A[i] - s)), "v - scalar");
		ENSURE(eq(raw<R>(n)[i], (R)(s - A[i])), "scalar - v");
		ENSURE(eq(raw<T1>(a)[i], A[i]), "operand unchanged");
	}
}

template<size_t D, typename T> void clamps() {
	Vec<D, T> a, l, h;
	vc::fill<T>(a, D, "a"); vc::fill<T>(l, D, "l"); vc::fill<T>(h, D, "h");
	const auto ca = a;
	auto A = raw<T>(ca); auto L = raw<T>(l); auto H = raw<T>(h);
	for(size_t i = 0; i < D; ++i) REQUIRE(L[i] <= H[i]);
	auto c = cw::clamp(a, l, h);
	for(size_t i = 0; i < D; ++i) ENSURE(eq(raw<T>(a)[i], A[i]), "clamp by value leaves its operand unchanged");
	cw::ip::clamp(a, l, h);
	for(size_t i = 0; i < D; ++i) {
		auto x = raw<T>(c)[i];
		ENSURE((L[i] <= x) & (x <= H[i]), "clamped into the range");
		ENSURE((x == A[i]) | ((x == L[i]) & (A[i] < L[i])) | ((x == H[i]) & (A[i] > H[i])), "clamp only moves values outside the range");
		ENSURE(eq(raw<T>(a)[i], x), "in-place form agrees");
	}
}

template<size_t D, typename T> void clampScalar() {
	Vec<D, T> a;
	vc::fill<T>(a, D, "a");
	const auto ca = a;
	auto A = raw<T>(ca);
	T l = vc::any<T>("l"), h = vc::any<T>("h");
	REQUIRE(l <= h);
	auto c = cw::clamp(a, l, h);
	for(size_t i = 0; i < D; ++i) ENSURE(eq(raw<T>(a)[i], A[i]), "clamp by value leaves its operand unchanged");
	cw::ip::clamp(a, l, h);
	for(size_t i = 0; i < D; ++i) {
		auto x = raw<T>(c)[i];
		ENSURE((l <= x) & (x <= h), "clamped into the range");
		ENSURE((x == A[i]) | ((x == l) & (A[i] < l)) | ((x == h) & (A[i] > h)), "clamp only moves values outside the range");
		ENSURE(eq(raw<T>(a)[i], x), "in-place form agrees");
	}
}

// the domain in which the real function is defined
#define FUNC(func, dom) \
	template<size_t D, typename T> void f_##func() { \
		Vec<D, T> a; \
		vc::fill<T>(a, D, "a"); \
		const auto ca = a; \
		auto A = raw<T>(ca); \
		for(size_t i = 0; i < D; ++i) { double x = A[i]; (void) x; dom; } \
		auto r = cw::func(a); \
		for(size_t i = 0; i < D; ++i) ENSURE(eq(raw<T>(a)[i], A[i]), "by-value form leaves its operand unchanged"); \
		cw::ip::func(a); \
		for(size_t i = 0; i < D; ++i) { \
			ENSURE(eq(raw<T>(r)[i], (T) std::func(A[i])), #func " component"); \
			ENSURE(eq(raw<T>(a)[i], raw<T>(r)[i]), #func " in place"); \
		} \
	}
FUNC(abs, )
FUNC(sin, )
FUNC(cos, )
FUNC(tan, REQUIRE(!eq(std::cos(x), 0)))
FUNC(asin, REQUIRE((x <= 1) & (x >= -1)))
FUNC(acos, REQUIRE((x <= 1) & (x >= -1)))
FUNC(atan, )
FUNC(sqrt, REQUIRE(x >= 0))
FUNC(log, REQUIRE(x > 0))
FUNC(exp, )
FUNC(exp2, )
FUNC(floor, )
FUNC(ceil, )

template<size_t D, typename T> void pows() {
	Vec<D, T> a, b;
	vc::fill<T>(a, D, "a"); vc::fill<T>(b, D, "b");
	const auto ca = a;
	auto A = raw<T>(ca); auto B = raw<T>(b);
	for(size_t i = 0; i < D; ++i) REQUIRE(A[i] > 0);
	T e = vc::any<T>("e");
	auto r = cw::pow(a, b);
	auto s = cw::pow(a, e);
	for(size_t i = 0; i < D; ++i) ENSURE(eq(raw<T>(a)[i], A[i]), "by-value form leaves its operand unchanged");
	auto c = a;
	cw::ip::pow(a, b);
	cw::ip::pow(c, e);
	for(size_t i = 0; i < D; ++i) {
		ENSURE(eq(raw<T>(r)[i], (T) std::pow(A[i], B[i])), "pow component");
		ENSURE(eq(raw<T>(s)[i], (T) std::pow(A[i], e)), "pow with a scalar exponent");
		ENSURE(eq(raw<T>(a)[i], raw<T>(r)[i]), "pow in place");
		ENSURE(eq(raw<T>(c)[i], raw<T>(s)[i]), "pow with a scalar exponent in place");
	}
}
}

#define INST0(D) \
	HARNESS(minmax_real_##D) { minmax<D, double>(); } \
	HARNESS(minmax_int_##D) { minmax<D, std::int32_t>(); } \
	HARNESS(minmax_uint_##D) { minmax<D, std::uint32_t>(); } \
	HARNESS(minmaxScalar_real_##D) { minmaxScalar<D, double>(); } \
	HARNESS(minmaxScalar_int_##D) { minmaxScalar<D, std::int32_t>(); } \
	HARNESS(clamp_real_##D) { clamps<D, double>(); } \
	HARNESS(clamp_int_##D) { clamps<D, std::int32_t>(); } \
	HARNESS(clampScalar_real_##D) { clampScalar<D, double>(); } \
	HARNESS(clampScalar_int_##D) { clampScalar<D, std::int32_t>(); } \
	HARNESS(abs_##D) { f_abs<D, double>(); } \
	HARNESS(abs_float_##D) { f_abs<D, float>(); }
#define INST(D) \
	HARNESS(muldiv_real_##D) { mulDiv<D, double, double>(); } \
	HARNESS(muldiv_mixed_##D) { mulDiv<D, double, float>(); } \
	HARNESS(muldiv_int_##D) { mulDiv<D, std::int32_t, std::int32_t>(); } \
	HARNESS(scalar_real_##D) { scalarOps<D, double, double>(); } \
	HARNESS(scalar_mixed_##D) { scalarOps<D, float, double>(); } \
	HARNESS(scalar_int_##D) { scalarOps<D, std::int32_t, std::int32_t>(); } \
	HARNESS(sin_##D) { f_sin<D, double>(); } \
	HARNESS(cos_##D) { f_cos<D, double>(); } \
	HARNESS(tan_##D) { f_tan<D, double>(); } \
	HARNESS(asin_##D) { f_asin<D, double>(); } \
	HARNESS(acos_##D) { f_acos<D, double>(); } \
	HARNESS(atan_##D) { f_atan<D, double>(); } \
	HARNESS(sqrt_##D) { f_sqrt<D, double>(); } \
	HARNESS(log_##D) { f_log<D, double>(); } \
	HARNESS(exp_##D) { f_exp<D, double>(); } \
	HARNESS(exp2_##D) { f_exp2<D, double>(); } \
	HARNESS(floor_##D) { f_floor<D, double>(); } \
	HARNESS(ceil_##D) { f_ceil<D, double>(); } \
	HARNESS(sqrt_float_##D) { f_sqrt<D, float>(); } \
	HARNESS(floor_float_##D) { f_floor<D, float>(); } \
	HARNESS(pow_##D) { pows<D, double>(); }

INST0(1) INST0(2) INST0(3) INST0(4)
INST(1) INST(2) INST(3) INST(4) INST(5) INST(9)
