// C30: quaternion algebra and rotation
// vc-tol: 1e-9
#include "quat.hpp"
using namespace nytl;
using vc::raw; using vc::eq; using qs::same; using qs::anyQ;
namespace {
Quaternion make(double x, double y, double z, double w) { Quaternion q; q.x = x; q.y = y; q.z = z; q.w = w; return q; }
template<typename T> void applied() {
	auto q = anyQ("q");
	Vec3<T> v; vc::fill<T>(v, 3, "v");
	double in[3], ref[3];
	for(int i = 0; i < 3; ++i) in[i] = (double) raw<T>(v)[i];
	qs::rot(q, in, ref);
	auto r = nytl::apply(q, v);
	static_assert(std::is_same_v<decltype(r), Vec3<T>>);
	for(int i = 0; i < 3; ++i) ENSURE(eq(r[i], ref[i]), "apply is q v q*");
	for(int i = 0; i < 3; ++i) ENSURE(eq(raw<T>(v)[i], in[i]), "the vector is kept");
}
template<typename T> void axis(bool vec) {
	double u[3]; T v0[3];
	vc::unit(v0, 3, "u");
	for(int i = 0; i < 3; ++i) u[i] = (double) v0[i];
	double a = vc::any<double>("angle");
	Quaternion q;
	if(vec) { Vec3f f; for(int i = 0; i < 3; ++i) raw<float>(f)[i] = (float) v0[i]; q = Quaternion::axisAngle(f, a); }
	else q = Quaternion::axisAngle(u[0], u[1], u[2], a);
	ENSURE(eq(qs::norm2(q), 1), "axis-angle of a unit axis is a unit quaternion");
	Vec3d v; vc::fill<double>(v, 3, "v");
	auto r = nytl::apply(q, v);
	double ref[3];
	qs::rodrigues(u, std::cos(a), std::sin(a), raw<double>(v), ref);
	for(int i = 0; i < 3; ++i) ENSURE(eq(r[i], ref[i]), "rotates by the angle around the axis, right-handed");
}
}
HARNESS(defaulted) { Quaternion q; ENSURE((q.x == 0) & (q.y == 0) & (q.z == 0) & (q.w == 1), "the default quaternion is the identity"); }
HARNESS(product) {
	auto a = anyQ("a"), b = anyQ("b");
	const auto ca = a, cb = b;
	auto r = a * b;
	ENSURE(same(r, qs::mul(ca, cb)), "Hamilton product");
	ENSURE(same(a, ca) & same(b, cb), "operands kept");
	auto& x = (a *= b);
	ENSURE(&x == &a, "returns the left operand");
	ENSURE(same(a, qs::mul(ca, cb)), "compound product");
	ENSURE(same(b, cb), "right operand kept");
}
HARNESS(productSelf) {
	auto a = anyQ("a"); const auto ca = a;
	a *= a;
	ENSURE(same(a, qs::mul(ca, ca)), "product with itself");
}
HARNESS(linear) {
	auto a = anyQ("a"), b = anyQ("b"); double f = vc::any<double>("f");
	ENSURE(same(a + b, make(a.x + b.x, a.y + b.y, a.z + b.z, a.w + b.w)), "sum");
	ENSURE(same(a - b, make(a.x - b.x, a.y - b.y, a.z - b.z, a.w - b.w)), "difference");
	ENSURE(same(f * a, make(f * a.x, f * a.y, f * a.z, f * a.w)), "scaling");
	ENSURE(same(nytl::conjugated(a), make(-a.x, -a.y, -a.z, a.w)), "conjugate");
	ENSURE(eq(nytl::dot(a, b), a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w), "dot product");
}
HARNESS(equality) {
	auto a = anyQ("a"), b = anyQ("b");
	// natively equal components are unlikely
	size_t k = vc::pick(16, "pickequal");
	if(k & 1) b.x = a.x; 
	if(k & 2) b.y = a.y;
	if(k & 4) b.z = a.z;
	if(k & 8) b.w = a.w;
	bool e = (a.x == b.x) & (a.y == b.y) & (a.z == b.z) & (a.w == b.w);
	ENSURE((a == b) == e, "equality");
	ENSURE((a != b) == !e, "inequality");
}
HARNESS(norms) {
	auto a = anyQ("a");
	double n = nytl::norm(a);
	ENSURE(n >= 0, "norm is not negative");
	ENSURE(eq(n * n, qs::norm2(a)), "norm");
}
HARNESS(normalising) {
	auto a = anyQ("a");
	double n2 = qs::norm2(a);
	REQUIRE(vc::replaying() || n2 > 1e-3);
	REQUIRE(n2 > 0);
	auto r = nytl::normalized(a);
	double n = std::sqrt(n2);
	ENSURE(eq(qs::norm2(r), 1), "normalised has unit length");
	ENSURE(eq(r.x * n, a.x) & eq(r.y * n, a.y) & eq(r.z * n, a.z) & eq(r.w * n, a.w), "same direction");
}
HARNESS(normaliseZero) {
	Quaternion z = make(0, 0, 0, 0);
	ENSURE(nytl::normalized(z) == make(0, 0, 0, 1), "zero normalises to the identity");
}
HARNESS(apply_double) { applied<double>(); }
HARNESS(apply_float) { applied<float>(); }
HARNESS(isometry) {
	auto q = anyQ("q");
	Vec3d v, w; vc::fill<double>(v, 3, "v"); vc::fill<double>(w, 3, "w");
	double n = qs::norm2(q);
	auto a = nytl::apply(q, v), b = nytl::apply(q, w);
	double k = 1;
	if(vc::native) k = 1 / (1 + n * n * std::sqrt(qs::dot3(raw<double>(v), raw<double>(v)) * qs::dot3(raw<double>(w), raw<double>(w)))); // rounding
	ENSURE(eq(k * qs::dot3(raw<double>(a), raw<double>(b)), k * n * n * qs::dot3(raw<double>(v), raw<double>(w))), "lengths and angles are preserved");
	Vec3d c; qs::cross3(raw<double>(v), raw<double>(w), raw<double>(c));
	auto rc = nytl::apply(q, c);
	double x[3]; qs::cross3(raw<double>(a), raw<double>(b), x);
	for(int i = 0; i < 3; ++i) ENSURE(eq(k * x[i], k * n * rc[i]), "orientation is preserved");
}
HARNESS(sequence) {
	auto p = anyQ("p"), q = anyQ("q");
	Vec3d v; vc::fill<double>(v, 3, "v");
	auto a = nytl::apply(p * q, v), b = nytl::apply(p, nytl::apply(q, v));
	for(int i = 0; i < 3; ++i) ENSURE(eq(a[i], b[i]), "applying a product is applying the factors in sequence");
}
HARNESS(axisAngle) { axis<double>(false); }
HARNESS(axisAngleVec) { axis<float>(true); }
