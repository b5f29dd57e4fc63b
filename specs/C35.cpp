// C35: look-at matrices
// vc-tol: 1e-9
#include "trans.hpp"
using namespace nytl;
using vc::raw; using vc::eq; using namespace tr;
namespace {
template<typename P> struct Eye {
	Vec3<P> pos, z, up;
	double zd[3], ud[3], pd[3], x[3]; // x: up cross z, not normalised
	double len;
	Eye() {
		vc::unit(raw<P>(z), 3, "z"); vc::fill<P>(up, 3, "up"); vc::fill<P>(pos, 3, "pos"); coarse<P>();
		for(int i = 0; i < 3; ++i) { zd[i] = raw<P>(z)[i]; ud[i] = raw<P>(up)[i]; pd[i] = raw<P>(pos)[i]; }
		qs::cross3(ud, zd, x);
		double l2 = qs::dot3(x, x);
		REQUIRE(l2 > 0); // neither zero nor parallel to z
		REQUIRE(notSmall(l2));
		len = std::sqrt(l2);
	}
};
template<size_t D, typename P> void rigid(const SquareMat<D, P>& m) {
	const P* M = raw<P>(m);
	for(size_t i = 0; i < 3; ++i) for(size_t j = i; j < 3; ++j) {
		double s = 0;
		for(size_t k = 0; k < 3; ++k) s += (double) M[i * D + k] * M[j * D + k];
		ENSURE(eq(s, i == j), "orthonormal");
	}
	double r[3][3], x[3];
	for(int i = 0; i < 3; ++i) for(int k = 0; k < 3; ++k) r[i][k] = M[i * D + k];
	qs::cross3(r[0], r[1], x);
	for(int i = 0; i < 3; ++i) ENSURE(eq(x[i], r[2][i]), "orientation preserving");
	for(size_t k = 0; k < D && D > 3; ++k) ENSURE(eq(M[(D - 1) * D + k], k == D - 1), "affine");
}
// direction form: rows and images
template<size_t D, typename P> void directions(const SquareMat<D, P>& m, const Eye<P>& e) {
	double v[D] {}, o[D];
	for(int i = 0; i < 3; ++i) v[i] = e.zd[i];
	image(m, v, o);
	ENSURE(eq(o[0], 0) & eq(o[1], 0) & eq(o[2], 1), "the direction is mapped to the positive z axis");
	for(int i = 0; i < 3; ++i) v[i] = e.ud[i];
	image(m, v, o);
	ENSURE(eq(o[0], 0), "the up reference stays in the plane x = 0");
	ENSURE(eq(o[1], e.len), "the up reference points up");
	for(int i = 0; i < 3; ++i) v[i] = e.x[i];
	image(m, v, o);
	ENSURE(eq(o[0], e.len) & eq(o[1], 0) & eq(o[2], 0), "up cross z is mapped to the positive x axis");
}
template<typename P> void direction() {
	Eye<P> e;
	auto m = nytl::lookAt(e.pos, e.z, e.up);
	static_assert(std::is_same_v<std::decay_t<decltype(m)>, Mat4<P>>);
	double o[4];
	point(m, e.pd, o);
	for(int i = 0; i < 4; ++i) ENSURE(eq(o[i], i == 3), "the position is mapped to the origin");
	directions(m, e);
	rigid(m);
}
template<size_t D, typename P> void free() {
	Eye<P> e;
	auto m = nytl::lookAt<D, P>(e.z, e.up);
	static_assert(std::is_same_v<std::decay_t<decltype(m)>, SquareMat<D, P>>);
	directions(m, e);
	rigid(m);
	auto f = nytl::lookAt(e.pos, e.z, e.up);
	for(size_t i = 0; i < D; ++i) for(size_t j = 0; j < D; ++j) {
		if(i < 3 && j < 3) ENSURE(eq(raw<P>(m)[i * D + j], raw<P>(f)[i * 4 + j]), "agrees with the translating form");
		else ENSURE(eq(raw<P>(m)[i * D + j], i == j), "no translation");
	}
}
template<typename P> void quaternion() {
	auto q = qs::unitQ("q");
	Vec3<P> pos; vc::fill<P>(pos, 3, "pos"); coarse<P>();
	double pd[3], o[4];
	for(int i = 0; i < 3; ++i) pd[i] = raw<P>(pos)[i];
	auto m = nytl::lookAt<4, P>(q, pos);
	static_assert(std::is_same_v<std::decay_t<decltype(m)>, Mat4<P>>);
	point(m, pd, o);
	for(int i = 0; i < 4; ++i) ENSURE(eq(o[i], i == 3), "the position is mapped to the origin");
	// the position moved by a rotated offset is mapped to the offset
	double off[3], w[3];
	for(int i = 0; i < 3; ++i) off[i] = vc::any<double>("offset");
	qs::rot(q, off, w);
	for(int i = 0; i < 3; ++i) w[i] += pd[i];
	point(m, w, o);
	for(int i = 0; i < 3; ++i) ENSURE(eq(o[i], off[i]), "the rotation is undone after the translation");
	ENSURE(eq(o[3], 1), "points stay points");
	rigid(m);
}
template<typename P> void agree() {
	auto q = qs::unitQ("q");
	Vec3<P> pos, z, up; vc::fill<P>(pos, 3, "pos"); coarse<P>();
	double ez[3] = {0, 0, 1}, ey[3] = {0, 1, 0}, o[3], u[3];
	qs::rot(q, ez, o); qs::rot(q, ey, u);
	for(int i = 0; i < 3; ++i) { raw<P>(z)[i] = (P) o[i]; raw<P>(up)[i] = (P) u[i]; }
	auto a = nytl::lookAt<4, P>(q, pos);
	auto b = nytl::lookAt(pos, z, up);
	for(int i = 0; i < 16; ++i) ENSURE(eq(raw<P>(a)[i], raw<P>(b)[i]), "both forms agree");
}
}
HARNESS(direction_d) { direction<double>(); }
HARNESS(direction_f) { direction<float>(); }
HARNESS(free_3d) { free<3, double>(); }
HARNESS(free_3f) { free<3, float>(); }
HARNESS(free_4d) { free<4, double>(); }
HARNESS(free_4f) { free<4, float>(); }
HARNESS(quaternion_d) { quaternion<double>(); }
HARNESS(quaternion_f) { quaternion<float>(); }
HARNESS(agree_d) { agree<double>(); }
HARNESS(agree_f) { agree<float>(); }
