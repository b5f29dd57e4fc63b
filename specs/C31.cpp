// C31: quaternions, matrices and Euler angles
#include "quat.hpp"
using namespace nytl;
using vc::raw; using vc::eq; using qs::same; using qs::anyQ; using qs::unitQ;
namespace {
template<size_t N, typename T> void toMatrix() {
	double qv[4]; vc::unit(qv, 4, "q");
	if(std::is_same_v<T, float>) vc::any<float>("precision");
	Quaternion q; q.x = qv[0]; q.y = qv[1]; q.z = qv[2]; q.w = qv[3];
	auto m = nytl::toMat<N, T>(q);
	static_assert(std::is_same_v<std::decay_t<decltype(m)>, SquareMat<N, T>>);
	const T* M = raw<T>(m);
	double v[3], o[3];
	for(int i = 0; i < 3; ++i) v[i] = vc::any<double>("v");
	qs::rot(q, v, o);
	for(size_t i = 0; i < 3; ++i) {
		double s = 0;
		for(size_t k = 0; k < 3; ++k) s += (double) M[i * N + k] * v[k];
		ENSURE(eq(s, o[i]), "the matrix maps vectors like applying the quaternion");
	}
	for(size_t i = 0; i < N; ++i) for(size_t k = 0; k < N; ++k) if(i >= 3 || k >= 3)
		ENSURE(eq(M[i * N + k], i == k), "extended by the identity");
}
template<typename T> void fromMatrix() {
	double qv[4]; vc::unit(qv, 4, "q");
	Quaternion q; q.x = qv[0]; q.y = qv[1]; q.z = qv[2]; q.w = qv[3];
	// the rotation matrix of q: columns are the images of the unit vectors
	Mat3<T> m;
	for(int c = 0; c < 3; ++c) {
		double e[3] = {double(c == 0), double(c == 1), double(c == 2)}, o[3];
		qs::rot(q, e, o);
		for(int r = 0; r < 3; ++r) raw<T>(m)[r * 3 + c] = (T) o[r];
	}
	const auto r = Quaternion::fromMat(m);
	// r is q or -q  iff  r_i r_j = q_i q_j for all i, j
	double a[4] = {q.x, q.y, q.z, q.w}, b[4] = {r.x, r.y, r.z, r.w};
	for(int i = 0; i < 4; ++i) for(int j = i; j < 4; ++j)
		ENSURE(eq(b[i] * b[j], a[i] * a[j]), "the same quaternion up to sign");
}
// rotation around axis k (0: x, 1: y, 2: z)
Quaternion axisQ(int k, double angle) {
	double s = std::sin(angle / 2), c = std::cos(angle / 2);
	Quaternion q; q.x = k == 0 ? s : 0; q.y = k == 1 ? s : 0; q.z = k == 2 ? s : 0; q.w = c;
	return q;
}
void matOf(const Quaternion& q, double* m) {
	for(int c = 0; c < 3; ++c) {
		double e[3] = {double(c == 0), double(c == 1), double(c == 2)}, o[3];
		qs::rot(q, e, o);
		for(int r = 0; r < 3; ++r) m[r * 3 + c] = o[r];
	}
}
void axisMat(int k, double a, double* m) {
	double u[3] = {double(k == 0), double(k == 1), double(k == 2)};
	for(int c = 0; c < 3; ++c) {
		double e[3] = {double(c == 0), double(c == 1), double(c == 2)}, o[3];
		qs::rodrigues(u, std::cos(a), std::sin(a), e, o);
		for(int r = 0; r < 3; ++r) m[r * 3 + c] = o[r];
	}
}
void matMul(const double* a, const double* b, double* o) {
	for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) {
		o[i * 3 + j] = 0;
		for(int k = 0; k < 3; ++k) o[i * 3 + j] += a[i * 3 + k] * b[k * 3 + j];
	}
}
// the angles extracted rebuild the rotation, outside the degenerate middle angles
void euler(RotationSequence seq, int a, int b, int c) {
	auto q = unitQ("q");
	double m[9]; matOf(q, m);
	double mid = m[a * 3 + c];  // +-sin (Tait-Bryan) or cos (classic) of the middle angle
	REQUIRE((mid < 1) & (mid > -1));
	REQUIRE(vc::replaying() || (mid < 0.999 && mid > -0.999));
	if(a == c) REQUIRE(mid < 0.9999994); // |middle angle| >= 0.001 and more
	ENSURE(1 - mid * mid > 0, "the middle angle is not degenerate");
	auto ang = nytl::eulerAngles(q, seq);
	double x[9], y[9], z[9], xy[9], r[9];
	axisMat(a, ang[0], x); axisMat(b, ang[1], y); axisMat(c, ang[2], z);
	matMul(x, y, xy); matMul(xy, z, r);
	for(int i = 0; i < 9; ++i) ENSURE(eq(r[i], m[i]), "the Euler angles rebuild the rotation");
}
}
HARNESS(toMat_3d) { toMatrix<3, double>(); }
HARNESS(toMat_3f) { toMatrix<3, float>(); }
HARNESS(toMat_4d) { toMatrix<4, double>(); }
HARNESS(toMat_4f) { toMatrix<4, float>(); }
HARNESS(toMat_6f) { toMatrix<6, float>(); }
HARNESS(toMat_default) { static_assert(std::is_same_v<std::decay_t<decltype(nytl::toMat<4>(Quaternion {}))>, SquareMat<4, float>>); ENSURE(true, "type"); }
HARNESS(fromMat_d) { fromMatrix<double>(); }
HARNESS(fromMat_f) { fromMatrix<float>(); }
HARNESS(yawPitchRoll) {
	double y = vc::any<double>("yaw"), p = vc::any<double>("pitch"), r = vc::any<double>("roll");
	auto q = Quaternion::yxz(y, p, r);
	ENSURE(same(q, qs::mul(qs::mul(axisQ(1, y), axisQ(0, p)), axisQ(2, r))), "yaw-pitch-roll is the product of the axis rotations");
}
#define E(s, a, b, c) HARNESS(euler_##s) { euler(RotationSequence::s, a, b, c); }
E(xyz, 0, 1, 2) E(xzy, 0, 2, 1) E(yxz, 1, 0, 2) E(yzx, 1, 2, 0) E(zxy, 2, 0, 1) E(zyx, 2, 1, 0)
E(xyx, 0, 1, 0) E(xzx, 0, 2, 0) E(yxy, 1, 0, 1) E(yzy, 1, 2, 1) E(zxz, 2, 0, 2) E(zyz, 2, 1, 2)
