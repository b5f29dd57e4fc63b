// C33: affine transforms
// vc-tol: 1e-9
#include "trans.hpp"
using namespace nytl;
using vc::raw; using vc::eq; using namespace tr;
namespace {
// rows of p r for in-place forms: result == T * old
template<size_t D, typename T> void after(const SquareMat<D, T>& now, const SquareMat<D, T>& t, const SquareMat<D, T>& old) {
	const T *N = raw<T>(now), *A = raw<T>(t), *B = raw<T>(old);
	for(size_t i = 0; i < D; ++i) for(size_t j = 0; j < D; ++j) {
		double s = 0;
		for(size_t k = 0; k < D; ++k) s += (double) A[i * D + k] * B[k * D + j];
		ENSURE(eq(N[i * D + j], s), "the transform is applied after the existing matrix");
	}
}
template<size_t D, size_t O, typename P, typename T> void expand() {
	SquareMat<O, T> m; anyMat(m); coarse<P>();
	const auto c = m;
	auto r = nytl::expandIdentity<D, P>(m);
	static_assert(std::is_same_v<std::decay_t<decltype(r)>, SquareMat<D, P>>);
	for(size_t i = 0; i < D; ++i) for(size_t j = 0; j < D; ++j) {
		if(i < O && j < O) ENSURE(eq(raw<P>(r)[i * D + j], raw<T>(c)[i * O + j]), "the matrix is kept");
		else ENSURE(eq(raw<P>(r)[i * D + j], i == j), "identity elsewhere");
	}
}
template<size_t D, size_t R, typename P> void scaling() {
	Vec<R, P> s; vc::fill<P>(s, R, "s"); coarse<P>();
	const auto c = s;
	auto m = nytl::scaleMat<D, P>(s);
	static_assert(std::is_same_v<std::decay_t<decltype(m)>, SquareMat<D, P>>);
	double v[D], o[D];
	for(size_t i = 0; i < D; ++i) v[i] = vc::any<double>("v");
	image(m, v, o);
	for(size_t i = 0; i < D; ++i) ENSURE(eq(o[i], i < R ? raw<P>(c)[i] * v[i] : v[i]), "scales every component");
	SquareMat<D, P> x; anyMat(x);
	const auto old = x;
	nytl::scale(x, s);
	after(x, m, old);
}
template<size_t D, size_t R, typename P> void translation() {
	Vec<R, P> s; vc::fill<P>(s, R, "t"); coarse<P>();
	const auto c = s;
	auto m = nytl::translateMat<D, P>(s);
	static_assert(std::is_same_v<std::decay_t<decltype(m)>, SquareMat<D, P>>);
	double v[D], o[D];
	for(size_t i = 0; i + 1 < D; ++i) v[i] = vc::any<double>("v");
	point(m, v, o);
	for(size_t i = 0; i + 1 < D; ++i) ENSURE(eq(o[i], i < R ? v[i] + raw<P>(c)[i] : v[i]), "translates every component");
	ENSURE(eq(o[D - 1], 1), "points stay points");
	SquareMat<D, P> x; anyMat(x);
	const auto old = x;
	nytl::translate(x, s);
	after(x, m, old);
}
template<size_t D, typename P> void rotation2() {
	P a = vc::any<P>("angle"); coarse<P>();
	auto m = nytl::rotateMat<D, P>(a);
	static_assert(std::is_same_v<std::decay_t<decltype(m)>, SquareMat<D, P>>);
	double v[D], o[D];
	for(size_t i = 0; i < D; ++i) v[i] = vc::any<double>("v");
	image(m, v, o);
	double c = std::cos((double) a), s = std::sin((double) a);
	ENSURE(eq(o[0], c * v[0] - s * v[1]) & eq(o[1], s * v[0] + c * v[1]), "rotates counter-clockwise by the angle");
	ENSURE(eq(o[0] * o[0] + o[1] * o[1], v[0] * v[0] + v[1] * v[1]), "lengths are kept");
	embedded(m, 2);
	SquareMat<D, P> x; anyMat(x);
	const auto old = x;
	nytl::rotate(x, a);
	after(x, m, old);
}
template<size_t D, typename P> void rotation3() {
	Vec3<P> u; vc::unit(raw<P>(u), 3, "u"); coarse<P>();
	P a = vc::any<P>("angle");
	const auto cu = u;
	auto m = nytl::rotateMat<D, P>(u, a);
	static_assert(std::is_same_v<std::decay_t<decltype(m)>, SquareMat<D, P>>);
	double v[D], o[D], ud[3], ref[3];
	for(size_t i = 0; i < D; ++i) v[i] = vc::any<double>("v");
	for(int i = 0; i < 3; ++i) ud[i] = raw<P>(cu)[i];
	image(m, v, o);
	qs::rodrigues(ud, std::cos((double) a), std::sin((double) a), v, ref);
	for(int i = 0; i < 3; ++i) ENSURE(eq(o[i], ref[i]), "rotates by the angle around the axis, right-handed");
	ENSURE(eq(qs::dot3(o, o), qs::dot3(v, v)), "lengths are kept");
	embedded(m, 3);
	SquareMat<D, P> x; anyMat(x);
	const auto old = x;
	nytl::rotate(x, u, a);
	after(x, m, old);
}
template<typename P> void rotateVec() {
	Vec3<P> u, v; vc::unit(raw<P>(u), 3, "u"); vc::fill<P>(v, 3, "v"); coarse<P>();
	P a = vc::any<P>("angle");
	double ud[3], vd[3], o[3], ref[3];
	for(int i = 0; i < 3; ++i) { ud[i] = raw<P>(u)[i]; vd[i] = raw<P>(v)[i]; }
	auto r = nytl::rotate(v, u, a);
	static_assert(std::is_same_v<std::decay_t<decltype(r)>, Vec3<P>>);
	for(int i = 0; i < 3; ++i) o[i] = raw<P>(r)[i];
	qs::rodrigues(ud, std::cos((double) a), std::sin((double) a), vd, ref);
	for(int i = 0; i < 3; ++i) ENSURE(eq(o[i], ref[i]), "rotates by the angle around the axis, right-handed");
	ENSURE(eq(qs::dot3(o, o), qs::dot3(vd, vd)), "lengths are kept");
	ENSURE(eq(qs::dot3(o, ud), qs::dot3(vd, ud)), "the height over the axis is kept");
}
template<size_t D, typename P> void orient2() {
	Vec2<P> f, t; vc::unit(raw<P>(f), 2, "f"); vc::fill<P>(t, 2, "t"); coarse<P>();
	const auto cf = f, ct = t;
	auto m = nytl::orientMat<D, P>(f, t);
	double v[D] {}, o[D];
	for(int i = 0; i < 2; ++i) v[i] = raw<P>(cf)[i];
	image(m, v, o);
	for(int i = 0; i < 2; ++i) ENSURE(eq(o[i], raw<P>(ct)[i]), "maps the first direction to the second");
	embedded(m, 2);
	// a rotation scaled by the length of 'to': x -> c x - s y, y -> s x + c y
	const P* M = raw<P>(m);
	ENSURE(eq(M[0], M[D + 1]) & eq(M[1], -M[D]), "rotation and scale only");
}
template<size_t D, typename P> void orient3() {
	Vec3<P> f, t; vc::unit(raw<P>(f), 3, "f"); vc::unit(raw<P>(t), 3, "t"); coarse<P>();
	double fd[3], td[3];
	for(int i = 0; i < 3; ++i) { fd[i] = raw<P>(f)[i]; td[i] = raw<P>(t)[i]; }
	double c = qs::dot3(fd, td);
	REQUIRE(c != -1);
	REQUIRE(vc::replaying() || c > -0.9);
	auto m = nytl::orientMat<D, P>(f, t);
	static_assert(std::is_same_v<std::decay_t<decltype(m)>, SquareMat<D, P>>);
	double v[D] {}, o[D];
	for(int i = 0; i < 3; ++i) v[i] = fd[i];
	image(m, v, o);
	for(int i = 0; i < 3; ++i) ENSURE(eq(o[i], td[i]), "maps the first direction to the second");
	// the smallest such rotation: keeps the common normal
	double n[3]; qs::cross3(fd, td, n);
	for(int i = 0; i < 3; ++i) v[i] = n[i];
	image(m, v, o);
	for(int i = 0; i < 3; ++i) ENSURE(eq(o[i], n[i]), "keeps the common normal");
	const P* M = raw<P>(m);
	for(size_t i = 0; i < 3; ++i) for(size_t j = i; j < 3; ++j) {
		double s = 0;
		for(size_t k = 0; k < 3; ++k) s += (double) M[i * D + k] * M[j * D + k];
		ENSURE(eq(s, i == j), "orthonormal");
	}
	double r0[3], r1[3], r2[3];
	for(int i = 0; i < 3; ++i) { r0[i] = M[i]; r1[i] = M[D + i]; r2[i] = M[2 * D + i]; }
	double x[3]; qs::cross3(r0, r1, x);
	for(int i = 0; i < 3; ++i) ENSURE(eq(x[i], r2[i]), "orientation preserving");
	embedded(m, 3);
}
template<size_t A, size_t D, typename T> void flipped(const SquareMat<D, T>& now, const SquareMat<D, T>& old) {
	for(size_t i = 0; i < D; ++i) for(size_t j = 0; j < D; ++j)
		ENSURE(eq(raw<T>(now)[i * D + j], i == A ? -raw<T>(old)[i * D + j] : raw<T>(old)[i * D + j]), "exactly one output coordinate is negated");
}
template<size_t A, size_t D, typename P> void flips() {
	SquareMat<D, P> m; anyMat(m);
	const auto old = m;
	flipped<A>(nytl::flippedAxis<A>(m), old);
	for(size_t i = 0; i < D * D; ++i) ENSURE(eq(raw<P>(m)[i], raw<P>(old)[i]), "the argument is kept");
	if(A == 1) {
		flipped<A>(nytl::flippedY(m), old);
		auto c = m; nytl::flipY(c); flipped<A>(c, old);
	}
	if constexpr(D > 2) if(A == 2) {
		flipped<A>(nytl::flippedZ(m), old);
		auto c = m; nytl::flipZ(c); flipped<A>(c, old);
	}
	nytl::flipAxis<A>(m);
	flipped<A>(m, old);
}
template<typename P> void position() {
	Mat4<P> m; anyMat(m); Vec3<P> v; vc::fill<P>(v, 3, "v");
	double d[3], o[4];
	for(int i = 0; i < 3; ++i) d[i] = raw<P>(v)[i];
	point(m, d, o);
	REQUIRE(o[3] != 0);
	REQUIRE(notSmall(o[3]));
	auto r = nytl::multPos(m, v);
	static_assert(std::is_same_v<std::decay_t<decltype(r)>, Vec3<P>>);
	for(int i = 0; i < 3; ++i) ENSURE(eq(r[i], o[i] / o[3]), "the homogeneous image of the point");
}
template<typename P> void basis(bool singular) {
	Vec3<P> n; vc::unit(raw<P>(n), 3, "n"); coarse<P>();
	double d[3];
	for(int i = 0; i < 3; ++i) d[i] = raw<P>(n)[i];
	if(singular) {
		if(!vc::replaying()) { d[0] = raw<P>(n)[0] *= 0.001f; d[1] = raw<P>(n)[1] *= 0.001f; d[2] = raw<P>(n)[2] = -1; }
		REQUIRE(d[2] < -0.99999);
	}
	else REQUIRE((d[2] > -0.99998) & (vc::replaying() || d[2] > -0.99));
	auto b = nytl::base(n);
	double x[3], y[3];
	for(int i = 0; i < 3; ++i) { x[i] = raw<P>(b[0])[i]; y[i] = raw<P>(b[1])[i]; }
	double v[6] = {qs::dot3(x, x) - 1, qs::dot3(y, y) - 1, qs::dot3(x, y), qs::dot3(x, d), qs::dot3(y, d), 0};
	if(singular) {
		for(int i = 0; i < 5; ++i) ENSURE((v[i] < 1e-2) & (v[i] > -1e-2), "orthonormal up to 1e-2");
		return;
	}
	for(int i = 0; i < 2; ++i) ENSURE(eq(v[i], 0), "unit vectors");
	for(int i = 2; i < 5; ++i) ENSURE(eq(v[i], 0), "orthogonal");
	double c[3]; qs::cross3(x, y, c);
	for(int i = 0; i < 3; ++i) ENSURE(eq(c[i], d[i]), "right-handed");
}
}
HARNESS(expand_4_3) { expand<4, 3, float, float>(); }
HARNESS(expand_4_2) { expand<4, 2, double, double>(); }
HARNESS(expand_3_2) { expand<3, 2, double, float>(); }
HARNESS(expand_3_3) { expand<3, 3, double, double>(); }
HARNESS(expand_4_1) { expand<4, 1, float, double>(); }
HARNESS(scale_4_3f) { scaling<4, 3, float>(); }
HARNESS(scale_4_3d) { scaling<4, 3, double>(); }
HARNESS(scale_4_4) { scaling<4, 4, double>(); }
HARNESS(scale_3_2) { scaling<3, 2, double>(); }
HARNESS(scale_4_2) { scaling<4, 2, float>(); }
HARNESS(scale_2_1) { scaling<2, 1, double>(); }
HARNESS(translate_4_3f) { translation<4, 3, float>(); }
HARNESS(translate_4_3d) { translation<4, 3, double>(); }
HARNESS(translate_3_2) { translation<3, 2, float>(); }
HARNESS(translate_4_2) { translation<4, 2, double>(); }
HARNESS(translate_2_1) { translation<2, 1, double>(); }
HARNESS(rotate2_2) { rotation2<2, double>(); }
HARNESS(rotate2_3f) { rotation2<3, float>(); }
HARNESS(rotate2_4) { rotation2<4, double>(); }
HARNESS(rotate3_3) { rotation3<3, double>(); }
HARNESS(rotate3_4d) { rotation3<4, double>(); }
HARNESS(rotate3_4f) { rotation3<4, float>(); }
HARNESS(rotateVec_d) { rotateVec<double>(); }
HARNESS(rotateVec_f) { rotateVec<float>(); }
HARNESS(orient2_2) { orient2<2, double>(); }
HARNESS(orient2_4) { orient2<4, float>(); }
HARNESS(orient3_3) { orient3<3, double>(); }
HARNESS(orient3_4d) { orient3<4, double>(); }
HARNESS(orient3_4f) { orient3<4, float>(); }
HARNESS(flip_0_4) { flips<0, 4, float>(); }
HARNESS(flip_1_4) { flips<1, 4, double>(); }
HARNESS(flip_2_4) { flips<2, 4, double>(); }
HARNESS(flip_3_4) { flips<3, 4, float>(); }
HARNESS(flip_1_3) { flips<1, 3, double>(); }
HARNESS(flip_2_3) { flips<2, 3, float>(); }
HARNESS(expand_7_3) { expand<7, 3, double, double>(); }
HARNESS(expand_7_6) { expand<7, 6, double, float>(); }
HARNESS(scale_7_6) { scaling<7, 6, double>(); }
HARNESS(translate_7_6) { translation<7, 6, double>(); }
HARNESS(translate_7_2) { translation<7, 2, double>(); }
HARNESS(rotate2_7) { rotation2<7, double>(); }
HARNESS(rotate3_7) { rotation3<7, double>(); }
HARNESS(orient2_7) { orient2<7, double>(); }
HARNESS(orient3_7) { orient3<7, double>(); }
HARNESS(flip_6_7) { flips<6, 7, double>(); }
HARNESS(flip_1_2) { flips<1, 2, double>(); }
HARNESS(multPos_d) { position<double>(); }
HARNESS(multPos_f) { position<float>(); }
HARNESS(base_d) { basis<double>(false); }
HARNESS(base_f) { basis<float>(false); }
HARNESS(baseSingular_d) { basis<double>(true); }
HARNESS(baseSingular_f) { basis<float>(true); }
