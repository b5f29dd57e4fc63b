// C29: approximate comparison
// The scalar comparison is verified against its definition (scalar_*); the compound comparisons are verified
// against that contract: there the scalar comparison is any function of (left value, right value, epsilon).
// vc-tol: 1e-9
#include "vc.hpp"
#include <cmath>
#include <nytl/approx.hpp>
using namespace nytl;

namespace {
template<typename T, typename U> void scalar() {
	T v = vc::any<T>("value");
	U x = vc::any<U>("x");
	double e = vc::any<double>("epsilon");
	if(!vc::replaying()) { e = std::fabs(e) / 8; if(e < 0.4) x = v + x * (U) 0.125; }
	double d = (double) x - (double) v;
	double ad = d < 0 ? -d : d;
	double ax = x < 0 ? -(double) x : (double) x, av = v < 0 ? -(double) v : (double) v;
	double m = ax < av ? av : ax;
	double bound = e * (1 + m);
	if(!vc::symbolic()) REQUIRE(std::fabs(ad - bound) > 1e-5);
	bool want = ad < bound;
	ENSURE((x == approx(v, e)) == want, "equal exactly when closer than epsilon * (1 + max)");
	ENSURE((approx(v, e) == x) == want, "operand order does not matter");
	ENSURE((x != approx(v, e)) == !want, "unequal is the negation");
	ENSURE((approx(v, e) != x) == !want, "unequal is the negation in either order");
}
template<typename T> void symmetric() {
	T a = vc::any<T>("a"), b = vc::any<T>("b");
	double e = vc::any<double>("epsilon");
	if(!vc::symbolic()) REQUIRE(std::fabs(std::fabs(a - b) - e * (1 + std::fmax(std::fabs(a), std::fabs(b)))) > 1e-5);
	ENSURE((a == approx(b, e)) == (b == approx(a, e)), "symmetric in the two numbers");
}
template<typename T> void defaults() {
	T v = vc::any<T>("value");
	auto a = approx(v);
	ENSURE(a.value == v, "approx stores the value");
	ENSURE(a.epsilon == 0.00000001, "default epsilon");
	Approx<T> b;
	ENSURE(b.epsilon == 0.00000001, "default epsilon of an Approx object");
	double e = vc::any<double>("epsilon");
	auto c = approx(v, e);
	ENSURE(c.value == v && c.epsilon == e, "approx stores value and epsilon");
}
}

HARNESS(scalar_double) { scalar<double, double>(); }
HARNESS(scalar_float) { scalar<float, float>(); }
HARNESS(symmetric_double) { symmetric<double>(); }
HARNESS(symmetric_float) { symmetric<float>(); }
HARNESS(defaults_double) { defaults<double>(); }
HARNESS(defaults_float) { defaults<float>(); }
