// C32: spherical interpolation
// vc-tol: 1e-9
#include "quat.hpp"
using namespace nytl;
using vc::raw; using vc::eq; using qs::same; using qs::unitQ; 
namespace {
struct Pair { Quaternion a, b; double d; };
Pair any(bool close) {
	Pair p; p.a = unitQ("a"); p.b = unitQ("b");
	p.d = qs::dot(p.a, p.b);
	if(close) REQUIRE((p.d > 0.9995) | (p.d < -0.9995));
	else REQUIRE((p.d <= 0.9995) & (p.d >= -0.9995));
	REQUIRE(vc::replaying() || close || (p.d < 0.9994 && p.d > -0.9994));
	return p;
}
// b or -b, whichever is closer to a
Quaternion nearer(const Pair& p) { return p.d < 0 ? -1.0 * p.b : p.b; }
bool sameRotation(const Quaternion& a, const Quaternion& b) { return same(a, b) | same(a, -1.0 * b); }
}
HARNESS(start) {
	auto p = any(false);
	ENSURE(same(nytl::slerp(p.a, p.b, 0.0), p.a), "starts at the first quaternion");
}
HARNESS(end) {
	auto p = any(false);
	ENSURE(same(nytl::slerp(p.a, p.b, 1.0), nearer(p)), "ends at the rotation of the second quaternion");
}
HARNESS(unitLength) {
	auto p = any(false);
	double t = vc::any<double>("t");
	ENSURE(eq(qs::norm2(nytl::slerp(p.a, p.b, t)), 1), "stays of unit length");
}
// the angle to the start is t times the angle between the ends, which is at most a right angle
HARNESS(constantSpeed) {
	auto p = any(false);
	double t = vc::any<double>("t");
	auto r = nytl::slerp(p.a, p.b, t);
	auto b = nearer(p);
	double c = qs::dot(p.a, b);
	ENSURE(c >= 0, "the ends are at most a right angle apart");
	double theta = std::acos(c);
	ENSURE(eq(qs::dot(p.a, r), std::cos(t * theta)), "the angle to the first is t times the whole angle");
	ENSURE(eq(qs::dot(b, r), std::cos(theta - t * theta)), "the angle to the second is the remaining one");
}
HARNESS(closeQuaternions) {
	auto p = any(true);
	double t = vc::any<double>("t");
	REQUIRE((t >= 0) & (t <= 1));
	auto r = nytl::slerp(p.a, p.b, t);
	auto b = nearer(p);
	Quaternion l = (1 - t) * p.a + t * b;
	double n2 = qs::norm2(l);
	ENSURE(eq(qs::norm2(r), 1), "unit length");
	double k = qs::dot(l, r);
	ENSURE(k > 0, "same direction as the linear mix");
	ENSURE(eq(k * k, n2), "parallel to the linear mix");
	ENSURE(same(k * r, l), "the normalised linear mix");
}
HARNESS(closeStart) {
	auto p = any(true);
	ENSURE(same(nytl::slerp(p.a, p.b, 0.0), p.a), "starts at the first quaternion");
	ENSURE(same(nytl::slerp(p.a, p.b, 1.0), nearer(p)), "ends at the rotation of the second quaternion");
}
