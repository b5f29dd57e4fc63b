// C30: quaternions of any magnitude, natively, as long as squares neither overflow nor vanish
// vc-mode: native
// vc-noenum: 1
#include "quat.hpp"
#include <limits>
using namespace nytl;
HARNESS(normalise) {
	double m = std::pow(10., (int) vc::pick(291, "pickexponent") - 145.), v[4], n = 0;
	for(auto& x : v) { x = (int) vc::pick(21, "pickcomponent") - 10; n += x * x; }
	REQUIRE(n > 0);
	n = std::sqrt(n);
	Quaternion q {v[0] * m, v[1] * m, v[2] * m, v[3] * m};
	double tol = 1e-13;
	ENSURE(std::abs(nytl::norm(q) / m - n) <= tol * n, "norm of a short or long quaternion");
	auto u = nytl::normalized(q);
	double w[4] {u.x, u.y, u.z, u.w};
	for(int i = 0; i < 4; ++i) ENSURE(std::abs(w[i] - v[i] / n) <= tol, "normalised short or long quaternion");
	vc_nontrivial();
}
HARNESS(algebra) {
	double m = std::pow(10., (int) vc::pick(141, "pickexponent") - 70.), k = std::pow(10., (int) vc::pick(141, "pickexponent") - 70.), a[4], b[4];
	for(auto& x : a) x = (int) vc::pick(21, "pickcomponent") - 10;
	for(auto& x : b) x = (int) vc::pick(21, "pickcomponent") - 10;
	Quaternion p {a[0] * m, a[1] * m, a[2] * m, a[3] * m}, q {b[0] * k, b[1] * k, b[2] * k, b[3] * k};
	auto r = p * q, e = qs::mul({a[0], a[1], a[2], a[3]}, {b[0], b[1], b[2], b[3]});
	double x[4] {r.x, r.y, r.z, r.w}, y[4] {e.x, e.y, e.z, e.w};
	for(int i = 0; i < 4; ++i) ENSURE(std::abs(x[i] / m / k - y[i]) <= 1e-11, "product of short or long quaternions");
	vc_nontrivial();
}
