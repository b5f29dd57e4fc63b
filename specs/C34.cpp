// C34: projections
// vc-tol: 1e-9
#include "trans.hpp"
using namespace nytl;
using vc::raw; using vc::eq; using namespace tr;
namespace {
template<typename P> struct Box {
	P l, r, b, t, n, f;
	Box(bool eye) {
		l = vc::any<P>("left"); r = vc::any<P>("right"); b = vc::any<P>("bot"); t = vc::any<P>("top"); n = vc::any<P>("near"); f = vc::any<P>("far");
		REQUIRE((l != r) & (b != t) & (n != f));
		REQUIRE(notSmall(l - r) & notSmall(b - t) & notSmall(n - f));
		if(eye) {
			REQUIRE(n != 0);
			REQUIRE((n > 0) == (f > 0));
			REQUIRE(n > 0 ? f > n : f < n);
			REQUIRE(notSmall(n));
		}
	}
};
// the image of a point after the homogeneous division
template<typename P> void project(const Mat4<P>& m, double x, double y, double z, double* o) {
	double v[3] = {x, y, z}, h[4];
	point(m, v, h);
	REQUIRE(notSmall(h[3]));
	ENSURE(h[3] != 0, "points of the volume have an image");
	for(int i = 0; i < 3; ++i) o[i] = h[i] / h[3];
}
template<typename P> void orthographic() {
	Box<P> b(false);
	auto m = nytl::ortho(b.l, b.r, b.b, b.t, b.n, b.f);
	static_assert(std::is_same_v<std::decay_t<decltype(m)>, Mat4<P>>);
	// the point at the fractions u of the box
	double u[3], o[3];
	for(int i = 0; i < 3; ++i) u[i] = vc::any<double>("u");
	project(m, b.l + u[0] * (b.r - b.l), b.b + u[1] * (b.t - b.b), b.n + u[2] * (b.f - b.n), o);
	ENSURE(eq(o[0], 2 * u[0] - 1), "left to right is -1 to 1");
	ENSURE(eq(o[1], 2 * u[1] - 1), "bottom to top is -1 to 1");
	ENSURE(eq(o[2], u[2]), "near to far is depth 0 to 1");
	double far[4];
	double v[3] = {vc::any<double>("x"), vc::any<double>("y"), vc::any<double>("z")};
	point(m, v, far);
	ENSURE(eq(far[3], 1), "affine");
}
template<typename P> double depth(int kind, const Box<P>& b, double z) {
	double n = b.n, f = b.f;
	if(kind == 0) return f * (z - n) / (z * (f - n)); // near 0, far 1
	if(kind == 1) return n * (f - z) / (z * (f - n)); // near 1, far 0
	return n / z; // near 1, infinity 0
}
template<typename P> Mat4<P> build(int kind, const Box<P>& b) {
	if(kind == 0) return nytl::frustum(b.l, b.r, b.b, b.t, b.n, b.f);
	if(kind == 1) return nytl::frustumRev(b.l, b.r, b.b, b.t, b.n, b.f);
	return nytl::frustumRevInf(b.l, b.r, b.b, b.t, b.n);
}
template<int kind, typename P> void frust() {
	Box<P> b(true);
	auto m = build(kind, b);
	double o[3];
	// the point at the fractions u of the plane at depth z, on the ray from the eye through the near plane
	double u[2], z = vc::any<double>("z");
	for(int i = 0; i < 2; ++i) u[i] = vc::any<double>("u");
	REQUIRE(z != 0); REQUIRE(notSmall(z));
	double k = z / b.n;
	project(m, k * (b.l + u[0] * (b.r - b.l)), k * (b.b + u[1] * (b.t - b.b)), z, o);
	ENSURE(eq(o[0], 2 * u[0] - 1), "left to right is -1 to 1 along every ray");
	ENSURE(eq(o[1], 2 * u[1] - 1), "bottom to top is -1 to 1 along every ray");
	ENSURE(eq(o[2] * z, depth(kind, b, z) * z), "perspective depth");
}
template<int kind, typename P> void frustPlanes() {
	Box<P> b(true);
	auto m = build(kind, b);
	double o[3];
	project(m, b.l, b.b, b.n, o);
	ENSURE(eq(o[0], -1) & eq(o[1], -1), "left bottom corner");
	ENSURE(eq(o[2], kind == 0 ? 0 : 1), "depth of the near plane");
	project(m, b.r, b.t, b.n, o);
	ENSURE(eq(o[0], 1) & eq(o[1], 1), "right top corner");
	ENSURE(eq(o[2], kind == 0 ? 0 : 1), "depth of the near plane");
	if(kind == 2) {
		// points at infinity
		double d[4] = {vc::any<double>("x"), vc::any<double>("y"), vc::any<double>("z"), 0}, h[4];
		image(m, d, h);
		ENSURE(eq(h[2], 0), "infinity has depth 0");
		return;
	}
	double k = (double) b.f / b.n;
	project(m, k * b.l, k * b.b, b.f, o);
	ENSURE(eq(o[0], -1) & eq(o[1], -1), "left bottom corner");
	ENSURE(eq(o[2], kind == 0 ? 1 : 0), "depth of the far plane");
	project(m, k * b.r, k * b.t, b.f, o);
	ENSURE(eq(o[0], 1) & eq(o[1], 1), "right top corner");
	ENSURE(eq(o[2], kind == 0 ? 1 : 0), "depth of the far plane");
}
// kind 0: perspective, 1: reversed, 2: reversed and infinite
template<int kind, typename P> void persp() {
	P fov = vc::any<P>("fov"), aspect = vc::any<P>("aspect"), n = vc::any<P>("near"), f = vc::any<P>("far");
	const double half = (double) fov / 2;
	const double si = std::sin(half), co = std::cos(half);
	REQUIRE((si > 0) & (co > 0)); // 0 < fov < pi (modulo full turns)
	REQUIRE(vc::replaying() || (si > 0.1 && co > 0.1));
	REQUIRE((aspect > 0) & (n != 0) & (n != f));
	REQUIRE((n > 0) == (f > 0));
	REQUIRE(f != 0);
	REQUIRE(notSmall(n) & notSmall(f) & notSmall(n - f) & notSmall(aspect));
	Mat4<P> m;
	if(kind == 0) m = nytl::perspective(fov, aspect, n, f);
	if(kind == 1) m = nytl::perspectiveRev(fov, aspect, n, f);
	if(kind == 2) m = nytl::perspectiveRevInf(fov, aspect, n);
	const double s = n > 0 ? 1 : -1;
	double u[2], z = vc::any<double>("z");
	for(int i = 0; i < 2; ++i) u[i] = vc::any<double>("u");
	REQUIRE(s * z > 0); REQUIRE(notSmall(z));
	// the point of the view cone at the distance |z|: x = u0 * aspect * tan(fov/2) * |z|, y = u1 * tan(fov/2) * |z|
	double o[3], v[3] = {u[0] * aspect * si / co * s * z, u[1] * si / co * s * z, z}, h[4];
	point(m, v, h);
	ENSURE(h[3] > 0, "points in front of the eye have a positive w");
	for(int i = 0; i < 3; ++i) o[i] = h[i] / h[3];
	ENSURE(eq(o[0], u[0]), "the horizontal field of view, widened by the aspect ratio, is -1 to 1");
	ENSURE(eq(o[1], u[1]), "the vertical field of view is -1 to 1");
	double a = kind == 0 ? n : f, c = kind == 0 ? f : n;
	if(kind == 2) ENSURE(eq(o[2] * z, n), "perspective depth from the near plane to infinity");
	else ENSURE(eq(o[2] * z * (c - a), c * (z - a)), "perspective depth between near and far plane");
}
}
HARNESS(ortho_d) { orthographic<double>(); }
HARNESS(ortho_f) { orthographic<float>(); }
HARNESS(frustum_d) { frust<0, double>(); }
HARNESS(frustum_f) { frust<0, float>(); }
HARNESS(frustumRev_d) { frust<1, double>(); }
HARNESS(frustumRev_f) { frust<1, float>(); }
HARNESS(frustumRevInf_d) { frust<2, double>(); }
HARNESS(frustumRevInf_f) { frust<2, float>(); }
HARNESS(frustumPlanes_d) { frustPlanes<0, double>(); }
HARNESS(frustumPlanes_f) { frustPlanes<0, float>(); }
HARNESS(frustumRevPlanes_d) { frustPlanes<1, double>(); }
HARNESS(frustumRevPlanes_f) { frustPlanes<1, float>(); }
HARNESS(frustumRevInfPlanes_d) { frustPlanes<2, double>(); }
HARNESS(frustumRevInfPlanes_f) { frustPlanes<2, float>(); }
HARNESS(perspective_d) { persp<0, double>(); }
HARNESS(perspective_f) { persp<0, float>(); }
HARNESS(perspectiveRev_d) { persp<1, double>(); }
HARNESS(perspectiveRev_f) { persp<1, float>(); }
HARNESS(perspectiveRevInf_d) { persp<2, double>(); }
HARNESS(perspectiveRevInf_f) { persp<2, float>(); }
