#pragma once
#include "vc.hpp"
#include <nytl/quaternion.hpp>
#include <cmath>
namespace qs {
using nytl::Quaternion;
using vc::eq;
inline Quaternion anyQ(const char* n) { Quaternion q; q.x = vc::any<double>(n); q.y = vc::any<double>(n); q.z = vc::any<double>(n); q.w = vc::any<double>(n); return q; }
inline Quaternion unitQ(const char* n) { double v[4]; vc::unit(v, 4, n); Quaternion q; q.x = v[0]; q.y = v[1]; q.z = v[2]; q.w = v[3]; return q; }
/// Hamilton product
inline Quaternion mul(const Quaternion& a, const Quaternion& b) {
	Quaternion r;
	r.w = a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z;
	r.x = a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y;
	r.y = a.w * b.y + a.y * b.w + a.z * b.x - a.x * b.z;
	r.z = a.w * b.z + a.z * b.w + a.x * b.y - a.y * b.x;
	return r;
}
inline double norm2(const Quaternion& q) { return q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w; }
inline double dot(const Quaternion& a, const Quaternion& b) { return a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w; }
/// q v q*
inline void rot(const Quaternion& q, const double* v, double* o) {
	Quaternion p; p.x = v[0]; p.y = v[1]; p.z = v[2]; p.w = 0;
	Quaternion c; c.x = -q.x; c.y = -q.y; c.z = -q.z; c.w = q.w;
	auto r = mul(mul(q, p), c);
	o[0] = r.x; o[1] = r.y; o[2] = r.z;
}
inline bool same(const Quaternion& a, const Quaternion& b) { return eq(a.x, b.x) & eq(a.y, b.y) & eq(a.z, b.z) & eq(a.w, b.w); }
inline double dot3(const double* a, const double* b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline void cross3(const double* a, const double* b, double* o) {
	o[0] = a[1] * b[2] - a[2] * b[1]; o[1] = a[2] * b[0] - a[0] * b[2]; o[2] = a[0] * b[1] - a[1] * b[0];
}
/// Rodrigues: v rotated around the unit axis u by the angle of cosine c and sine s
inline void rodrigues(const double* u, double c, double s, const double* v, double* o) {
	double x[3]; cross3(u, v, x);
	double d = dot3(u, v);
	for(int i = 0; i < 3; ++i) o[i] = v[i] * c + x[i] * s + u[i] * d * (1 - c);
}
}
