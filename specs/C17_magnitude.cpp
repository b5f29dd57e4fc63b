// C17: numbers of very different magnitude, natively: the end points survive rounding
// vc-mode: native
// vc-noenum: 1
#include "vc.hpp"
#include <nytl/math.hpp>
#include <cmath>
#include <limits>
using namespace nytl;
namespace {
template<typename T> T number(int range) {
	T m = std::pow(T(10), T((int) vc::pick(2 * range + 1, "pickexponent") - range));
	return ((int) vc::pick(201, "pickmantissa") - 100) * m;
}
template<typename T> void ends() {
	constexpr int range = std::numeric_limits<T>::max_exponent10 / 2;
	T x = number<T>(range), y = number<T>(range);
	ENSURE(std::abs(mix(x, y, T(0)) - x) <= T(0.001) * std::abs(x), "mix yields the first value at 0, whatever the other one is");
	ENSURE(std::abs(mix(x, y, T(1)) - y) <= T(0.001) * std::abs(y), "mix yields the second value at 1, whatever the other one is");
	double a = (int) vc::pick(17, "pickfactor") / 16.0, tol = 8 * std::numeric_limits<T>::epsilon();
	double e = (1 - a) * (double) x + a * (double) y;
	ENSURE(std::abs((double) mix(x, y, T(a)) - e) <= tol * (std::abs((double) x) + std::abs((double) y)), "mix is the linear interpolation");
	for(T v : {x, y}) {
		ENSURE(std::abs((double) (radians(degrees(v)) - v)) <= tol * std::abs((double) v), "radians inverts degrees");
		ENSURE(std::abs((double) (degrees(radians(v)) - v)) <= tol * std::abs((double) v), "degrees inverts radians");
	}
	vc_nontrivial();
}
template<typename T> void step() {
	constexpr int range = std::numeric_limits<T>::max_exponent10 / 2;
	T a = number<T>(range), b = number<T>(range), x = number<T>(range), y = number<T>(range);
	REQUIRE(a < b && x <= y);
	T s = smoothstep(a, b, x), t = smoothstep(a, b, y);
	double tol = 16 * std::numeric_limits<T>::epsilon();
	if(x <= a) ENSURE(std::abs(s) <= tol, "smoothstep is 0 below its range");
	if(x >= b) ENSURE(std::abs(s - 1) <= tol, "smoothstep is 1 above its range");
	ENSURE(s >= -tol && s <= 1 + tol, "smoothstep lies in [0, 1]");
	ENSURE(s <= t + tol, "smoothstep is monotone");
	double w = std::max(0., std::min(1., ((double) x - a) / ((double) b - a)));
	ENSURE(std::abs(s - w * w * (3 - 2 * w)) <= tol, "smoothstep is the Hermite step");
	vc_nontrivial();
}
}
HARNESS(ends_double) { ends<double>(); }
HARNESS(ends_float) { ends<float>(); }
HARNESS(step_double) { step<double>(); }
HARNESS(step_float) { step<float>(); }
HARNESS(clamp_float) {
	float a = number<float>(19), b = number<float>(19), x = number<float>(19);
	REQUIRE(a < b);
	int store = 7;
	float r = clampStore(x, a, b, store);
	ENSURE(r == std::max(a, std::min(b, x)), "the clamped value");
	ENSURE(store == (x <= a ? -1 : x >= b ? 1 : 0), "which bound was hit");
	vc_nontrivial();
}
