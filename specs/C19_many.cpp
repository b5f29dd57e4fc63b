// C19: hundreds of components, natively (exact integers)
// vc-mode: native
// vc-noenum: 1
// vc-runs: 100
#include "vc.hpp"
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
#include <cmath>
using namespace nytl; using vc::raw;
namespace {
template<size_t D, typename T> void all() {
	Vec<D, T> a, b;
	auto A = raw<T>(a), B = raw<T>(b);
	auto m = vc::pick(90, "pickfactor") + 2, s = vc::pick(90, "pickoffset");
	for(size_t i = 0; i < D; ++i) { A[i] = T((i * m + s) % 31); B[i] = T((i * s + m) % 29); }
	T sum = 0, dot = 0, sq = 0, dist = 0;
	for(size_t i = 0; i < D; ++i) { sum += A[i]; dot += A[i] * B[i]; sq += A[i] * A[i]; dist += (A[i] - B[i]) * (A[i] - B[i]); }
	ENSURE(nytl::sum(a) == sum, "sum of the components");
	ENSURE(nytl::dot(a, b) == dot, "dot product");
	auto near = [](double x, double y) { return std::abs(x - y) <= 1e-9 * (1 + std::abs(y)); };
	ENSURE(near(length(a), std::sqrt((double) sq)), "length");
	ENSURE(near(distance(a, b), std::sqrt((double) dist)), "distance");
	auto r = mirror(a, b); bool ok = true;
	for(size_t i = 0; i < D; ++i) ok &= raw<T>(r)[i] == 2 * A[i] - B[i];
	ENSURE(ok, "mirror");
	Vec<D, T> one; for(size_t i = 0; i < D; ++i) raw<T>(one)[i] = 1;
	size_t k = vc::pick(D, "pickcomponent"); raw<T>(one)[k] = 7;
	ENSURE(multiply(one) == 7, "product of the components");
	if constexpr(!std::is_integral_v<T>) {
		REQUIRE(sq > 0);
		auto n = normalized(a); auto p = a; normalize(p); bool same = true; auto l = std::sqrt(sq);
		for(size_t i = 0; i < D; ++i) same &= near(raw<T>(n)[i], A[i] / l) && near(raw<T>(p)[i], A[i] / l);
		ENSURE(same, "normalising keeps the direction");
		REQUIRE(dist > 0 && dot > 0);
		double bb = 0; for(size_t i = 0; i < D; ++i) bb += B[i] * B[i];
		ENSURE(std::abs(std::cos(angle(a, b)) - dot / std::sqrt(sq * bb)) < 1e-9, "angle");
	}
}
}
HARNESS(many_300) { all<300, int>(); }
HARNESS(many_300r) { all<300, double>(); }
HARNESS(many_66000) { all<66000, double>(); }
