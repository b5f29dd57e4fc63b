// C20: hundreds of components, natively
// vc-mode: native
// vc-noenum: 1
// vc-runs: 100
#include "vc.hpp"
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
#include <cmath>
using namespace nytl; using vc::raw;
namespace cw = nytl::vec::cw;
namespace {
template<size_t D> void all() {
	using T = double;
	Vec<D, T> a, b;
	auto A = raw<T>(a), B = raw<T>(b);
	auto m = vc::pick(90, "pickfactor") + 2, s = vc::pick(90, "pickoffset");
	for(size_t i = 0; i < D; ++i) { A[i] = T((i * m + s) % 31 + 1) / 4; B[i] = T((i * s + m) % 29 + 1) / 4; }
	auto is = [&](const auto& v, auto f, const char* l) { bool ok = true; for(size_t i = 0; i < D; ++i) { T e = f(A[i], B[i]); ok &= std::abs(raw<T>(v)[i] - e) <= 1e-9 * (1 + std::abs(e)); } ENSURE(ok, l); };
	is(cw::max(a, b), [](T x, T y) { return std::max(x, y); }, "max");
	is(cw::min(a, b), [](T x, T y) { return std::min(x, y); }, "min");
	is(cw::max(a, 3.0), [](T x, T) { return std::max(x, 3.0); }, "max with a scalar");
	is(cw::min(a, 3.0), [](T x, T) { return std::min(x, 3.0); }, "min with a scalar");
	is(cw::multiply(a, b), [](T x, T y) { return x * y; }, "product");
	is(cw::divide(a, b), [](T x, T y) { return x / y; }, "quotient");
	is(cw::clamp(a, 2.0, 5.0), [](T x, T) { return std::clamp(x, 2.0, 5.0); }, "clamp");
	{ auto hi = b + b; is(cw::clamp(a, b, hi), [](T x, T y) { return std::clamp(x, y, y + y); }, "clamp"); }
	{ using namespace nytl::vec::cw::operators;
	  is(a * b, [](T x, T y) { return x * y; }, "product");
	  is(a / b, [](T x, T y) { return x / y; }, "quotient");
	  auto c = a; c *= b; is(c, [](T x, T y) { return x * y; }, "product");
	  c = a; c /= b; is(c, [](T x, T y) { return x / y; }, "quotient");
	  is(a + 3.0, [](T x, T) { return x + 3; }, "sum with a scalar");
	  is(3.0 + a, [](T x, T) { return 3 + x; }, "sum with a scalar");
	  is(a - 3.0, [](T x, T) { return x - 3; }, "difference with a scalar");
	  is(3.0 - a, [](T x, T) { return 3 - x; }, "difference with a scalar"); }
	is(cw::pow(a, 2), [](T x, T) { return std::pow(x, 2); }, "power");
	is(cw::pow(a, b), [](T x, T y) { return std::pow(x, y); }, "power");
	{ auto c = a; cw::ip::pow(c, b); is(c, [](T x, T y) { return std::pow(x, y); }, "power in place"); }
	{ auto c = a; cw::ip::clamp(c, 2.0, 5.0); is(c, [](T x, T) { return std::clamp(x, 2.0, 5.0); }, "clamp in place"); }
#define F(f) is(cw::f(a), [](T x, T) { return std::f(x); }, #f); { auto c = a; cw::ip::f(c); is(c, [](T x, T) { return std::f(x); }, #f " in place"); }
	F(sin) F(cos) F(tan) F(atan) F(sqrt) F(log) F(exp) F(exp2) F(floor) F(ceil)
	{ auto n = -a; auto c = cw::abs(n); is(c, [](T x, T) { return x; }, "abs"); cw::ip::abs(n); is(n, [](T x, T) { return x; }, "abs in place"); }
	{ auto c = 0.1 * a; auto d = cw::asin(c); is(d, [](T x, T) { return std::asin(0.1 * x); }, "asin"); d = cw::acos(c); is(d, [](T x, T) { return std::acos(0.1 * x); }, "acos"); }
}
}
HARNESS(many_300) { all<300>(); }
