// C17: scalar helpers
// vc-noround: _fd$
// vc-tol: 1e-9
#include "vc.hpp"
#include <nytl/math.hpp>
#include <cmath>
using namespace nytl;
using vc::eq; using vc::le; using vc::lt;

namespace {
constexpr double PI = 3.14159265358979323846;
template<typename P> void angles() {
	P x = vc::any<P>("x");
	double d = degrees(x), r = radians(x);
	double ax = std::fabs((double) x);
	ENSURE(le(std::fabs(d * PI - 180. * x), 1e-9 * ax), "degrees converts with 180/pi");
	ENSURE(le(std::fabs(r * 180. - PI * x), 1e-9 * ax), "radians converts with pi/180");
	ENSURE(eq(radians(d), x), "radians inverts degrees");
	ENSURE(eq(degrees(r), x), "degrees inverts radians");
}
template<typename P, typename T> void mixing() {
	P x = vc::any<P>("x"), y = vc::any<P>("y");
	T a = vc::any<T>("a");
	ENSURE(eq(mix(x, y, a), (1 - a) * x + a * y), "mix is the linear interpolation");
	ENSURE(eq(mix(x, y, T(0)), x), "mix yields the first value at 0");
	ENSURE(eq(mix(x, y, T(1)), y), "mix yields the second value at 1");
	ENSURE(eq(mix(x, x, a), x), "mix of equal values");
}
template<typename P> void smooth() {
	P lo = vc::any<P>("lo"), hi = vc::any<P>("hi"), x = vc::any<P>("x");
	REQUIRE(lo < hi);
	auto s = smoothstep(lo, hi, x);
	if(x <= lo) ENSURE(eq(s, 0), "smoothstep is 0 below its range");
	else if(x >= hi) ENSURE(eq(s, 1), "smoothstep is 1 above its range");
	else {
		double t = ((double) x - lo) / ((double) hi - lo);
		ENSURE(eq(s, 3 * t * t - 2 * t * t * t), "smoothstep is the Hermite step inside its range");
		ENSURE(le(0, s) & le(s, 1), "smoothstep lies in [0, 1]");
	}
}
template<typename P> void smoothMonotone() {
	P lo = vc::any<P>("lo"), hi = vc::any<P>("hi"), x = vc::any<P>("x"), y = vc::any<P>("y");
	REQUIRE(lo < hi && x <= y);
	double a = smoothstep(lo, hi, x), b = smoothstep(lo, hi, y);
	// the clamped parameters, in order
	double w = vc::let(1 / ((double) hi - lo));
	ENSURE(0 < w || !vc::symbolic(), "lemma: positive scale");
	double t = x <= lo ? 0 : x >= hi ? 1 : ((double) x - lo) / ((double) hi - lo);
	double u = y <= lo ? 0 : y >= hi ? 1 : ((double) y - lo) / ((double) hi - lo);
	double tt = vc::let(t), uu = vc::let(u);
	ENSURE(le(0, tt) & le(tt, 1) & le(0, uu) & le(uu, 1), "lemma: parameters in the unit interval");
	ENSURE(le(tt, uu), "lemma: parameters are ordered");
	ENSURE(le(3 * tt * tt - 2 * tt * tt * tt, 3 * uu * uu - 2 * uu * uu * uu), "lemma: the cubic is monotone");
	ENSURE(eq(a, 3 * tt * tt - 2 * tt * tt * tt) & eq(b, 3 * uu * uu - 2 * uu * uu * uu), "lemma: values are the cubic");
	ENSURE(le(a, b), "smoothstep is monotone");
}
}

HARNESS(angles_double) { angles<double>(); }
HARNESS(angles_float) { angles<float>(); }
HARNESS(angles_int) { angles<int>(); }
HARNESS(constants) {
	ENSURE(std::fabs(constants::pi - PI) < 1e-11, "pi");
	ENSURE(std::fabs(constants::e - 2.71828182845904523536) < 1e-10, "e");
	ENSURE(std::fabs(constants::degree - PI / 180) < 1e-12, "degree");
}
HARNESS(mix_dd) { mixing<double, double>(); }
HARNESS(mix_fd) { mixing<float, double>(); }
HARNESS(mix_ff) { mixing<float, float>(); }
HARNESS(mix_id) { mixing<int, double>(); }
HARNESS(smooth_double) { smooth<double>(); }
HARNESS(smooth_float) { smooth<float>(); }
HARNESS(smoothMonotone_double) { smoothMonotone<double>(); }
HARNESS(smoothMonotone_float) { smoothMonotone<float>(); }
HARNESS(factorials) {
	unsigned n = vc::pick(21, "pick n");
	std::uint64_t f = 1;
	for(unsigned i = 2; i <= n; ++i) f *= i;
	ENSURE(factorial(n) == f, "factorial");
}
HARNESS(clamping) {
	float v = vc::any<float>("v"), lo = vc::any<float>("lo"), hi = vc::any<float>("hi");
	REQUIRE(lo <= hi);
	int store = vc::any<int>("store");
	float r = clampStore(v, lo, hi, store);
	float want = v < lo ? lo : v > hi ? hi : v;
	ENSURE(r == want, "clampStore returns the clamped value");
	if(v <= lo) ENSURE(store == -1, "lower bound hit");
	else if(v >= hi) ENSURE(store == 1, "upper bound hit");
	else ENSURE(store == 0, "not clamped");
}
