// C19: short and long vectors, natively: whatever the magnitude, as long as squares neither overflow nor vanish
// vc-mode: native
// vc-noenum: 1
#include "vc.hpp"
#include <cmath>
#include <limits>
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
using namespace nytl; using vc::raw;
namespace {
template<size_t D, typename T> void magnitude() {
	Vec<D, T> a, b;
	constexpr int range = std::numeric_limits<T>::max_exponent10 / 2 - 5;       // 14 for float, 149 for double
	T m = std::pow(T(10), T((int) vc::pick(2 * range + 1, "pickexponent") - range)), n = std::pow(T(10), T((int) vc::pick(5, "pickscale") - 2));
	double sum = 0, x[D];
	for(size_t i = 0; i < D; ++i) { x[i] = (int) vc::pick(21, "pickcomponent") - 10; sum += x[i] * x[i]; raw<T>(a)[i] = (T) x[i] * m; raw<T>(b)[i] = (T) x[i] * m * n; }
	REQUIRE(sum > 0);
	double l = std::sqrt(sum), tol = 20 * std::numeric_limits<T>::epsilon();
	auto close = [&](double r, double e) { return std::abs(r - e) <= tol * (1 + std::abs(e)); };
	ENSURE(close((double) (nytl::length(a) / m), l), "length of a short or long vector");
	auto c = nytl::normalized(a);
	auto d = a; nytl::normalize(d);
	for(size_t i = 0; i < D; ++i) ENSURE(close(raw<T>(c)[i], x[i] / l) && close(raw<T>(d)[i], x[i] / l), "direction of a short or long vector");
	ENSURE(close((double) (nytl::distance(a, -a) / m), 2 * l), "distance of short or long vectors");
	double g = nytl::angle(a, b);
	ENSURE(g >= 0 && g < 100 * std::sqrt(tol), "parallel vectors of any length have no angle");
	vc_nontrivial();
}
}
HARNESS(magnitude_f2) { magnitude<2, float>(); }
HARNESS(magnitude_f3) { magnitude<3, float>(); }
HARNESS(magnitude_d3) { magnitude<3, double>(); }
HARNESS(magnitude_d4) { magnitude<4, double>(); }
