// C27: rectangle containment and intersection
// vc-tol: 1e-9
#include "vc.hpp"
#include <nytl/rect.hpp>
#include <nytl/rectOps.hpp>
using namespace nytl;
using vc::raw; using vc::eq;

namespace {
template<size_t D, typename T> struct R {
	Rect<D, T> r; T p[D], s[D];
	R(const char* name, int kind) { // kind 0: any, 1: non-negative size, 2: positive size
		vc::fill<T>(r.position, D, name); vc::fill<T>(r.size, D, name);
		if constexpr(std::is_integral_v<T>) {
			for(size_t i = 0; i < D; ++i) {
				T& x = raw<T>(r.position)[i]; T& y = raw<T>(r.size)[i];
				if(!vc::replaying()) { x %= 8; y %= 8; if(kind && y < 0) y = -y; }
				REQUIRE(x > -(1 << 28) && x < (1 << 28) && y > -(1 << 28) && y < (1 << 28));
			}
		}
		for(size_t i = 0; i < D; ++i) {
			if constexpr(!std::is_integral_v<T>) if(!vc::replaying() && kind && raw<T>(r.size)[i] < 0) raw<T>(r.size)[i] *= -1;
			p[i] = raw<T>(r.position)[i]; s[i] = raw<T>(r.size)[i];
			if(kind == 1) REQUIRE(s[i] >= 0);
			if(kind == 2) REQUIRE(s[i] > 0);
		}
	}
	bool has(const T* q) const { bool b = true; for(size_t i = 0; i < D; ++i) b = b & (p[i] <= q[i]) & (q[i] <= p[i] + s[i]); return b; }
	bool inside(const T* q) const { bool b = true; for(size_t i = 0; i < D; ++i) b = b & (p[i] < q[i]) & (q[i] < p[i] + s[i]); return b; }
	void same() const { for(size_t i = 0; i < D; ++i) ENSURE(eq(raw<T>(r.position)[i], p[i]) & eq(raw<T>(r.size)[i], s[i]), "operand unchanged"); }
};
template<size_t D, typename T> struct Point {
	Vec<D, T> v; T q[D];
	Point() {
		vc::fill<T>(v, D, "point");
		if constexpr(std::is_integral_v<T>) for(size_t i = 0; i < D; ++i) {
			T& x = raw<T>(v)[i];
			if(!vc::replaying()) x %= 12;
			REQUIRE(x > -(1 << 29) && x < (1 << 29));
		}
		for(size_t i = 0; i < D; ++i) q[i] = raw<T>(v)[i];
	}
};
template<typename T> T hi(T a, T b) { return a < b ? b : a; }
template<typename T> T lo(T a, T b) { return b < a ? b : a; }

template<size_t D, typename T> void containment() {
	R<D, T> a("a", 0); Point<D, T> p;
	ENSURE(contains(a.r, p.v) == a.has(p.q), "contains");
	ENSURE(containsReal(a.r, p.v) == a.inside(p.q), "containsReal");
	a.same();
}

// every common point is noticed
template<size_t D, typename T> void common() {
	R<D, T> a("a", 1), b("b", 1); Point<D, T> p;
	REQUIRE(a.has(p.q) & b.has(p.q));
	ENSURE(intersects(a.r, b.r), "rectangles with a common point intersect");
	ENSURE(intersects(b.r, a.r), "rectangles with a common point intersect");
}
template<size_t D, typename T> void commonInterior() {
	R<D, T> a("a", 2), b("b", 2); Point<D, T> p;
	REQUIRE(a.inside(p.q) & b.inside(p.q));
	ENSURE(intersectsReal(a.r, b.r), "rectangles with a common interior point intersect properly");
	ENSURE(intersectsReal(b.r, a.r), "rectangles with a common interior point intersect properly");
}
// an intersection is witnessed by a common point: the larger of both starts, resp. the middle of the common range
template<size_t D, typename T> void witness() {
	R<D, T> a("a", 1), b("b", 1);
	bool i = intersects(a.r, b.r);
	bool w = true;
	for(size_t k = 0; k < D; ++k) {
		T x = hi(a.p[k], b.p[k]), y = lo(a.p[k] + a.s[k], b.p[k] + b.s[k]);
		w = w & (x <= y) & (a.p[k] <= x) & (b.p[k] <= x) & (x <= a.p[k] + a.s[k] || !i) & (x <= b.p[k] + b.s[k] || !i);
	}
	ENSURE(i == w, "rectangles intersect exactly if the common range is not empty");
	ENSURE(intersects(b.r, a.r) == i, "intersects is symmetric");
	a.same(); b.same();
}
template<size_t D, typename T> void witnessInterior() {
	R<D, T> a("a", 2), b("b", 2);
	bool i = intersectsReal(a.r, b.r);
	bool w = true;
	for(size_t k = 0; k < D; ++k) {
		T x = hi(a.p[k], b.p[k]), y = lo(a.p[k] + a.s[k], b.p[k] + b.s[k]);
		w = w & (x < y);
	}
	ENSURE(i == w, "rectangles intersect properly exactly if the common range has an interior");
	ENSURE(intersectsReal(b.r, a.r) == i, "intersectsReal is symmetric");
	a.same(); b.same();
}
template<size_t D, typename T> void inter() {
	R<D, T> a("a", 1), b("b", 1); Point<D, T> p;
	bool i = true;
	for(size_t k = 0; k < D; ++k) i = i & (a.p[k] <= b.p[k] + b.s[k]) & (b.p[k] <= a.p[k] + a.s[k]);
	auto c = intersection(a.r, b.r);
	bool in = true, zero = true;
	for(size_t k = 0; k < D; ++k) {
		T x = raw<T>(c.position)[k], s = raw<T>(c.size)[k];
		in = in & (x <= p.q[k]) & (p.q[k] <= x + s);
		zero = zero & (x == 0) & (s == 0);
	}
	if(i) ENSURE(in == (a.has(p.q) & b.has(p.q)), "the intersection holds exactly the common points");
	else ENSURE(zero, "no common points: empty rectangle at the origin");
	a.same(); b.same();
}
template<size_t D, typename T> void misc() {
	R<D, T> a("a", 0), b("b", 0);
	bool all = true;
	T prod = 1;
	for(size_t k = 0; k < D; ++k) { all = all & (a.p[k] == b.p[k]) & (a.s[k] == b.s[k]); prod *= a.s[k]; }
	ENSURE((a.r == b.r) == all, "equality compares position and size");
	ENSURE((a.r != b.r) == !all, "inequality is the negation");
	ENSURE(eq(size(a.r), prod), "size is the product of the extents");
	auto c = center(a.r);
	for(size_t k = 0; k < D; ++k) ENSURE(eq(2 * (double) c[k], 2 * (double) a.p[k] + (double) a.s[k]), "center is the midpoint");
	a.same(); b.same();
}
}
#define ALL(d, T) \
	HARNESS(contains_##d##T) { containment<d, T>(); } \
	HARNESS(witness_##d##T) { witness<d, T>(); } \
	HARNESS(witnessInterior_##d##T) { witnessInterior<d, T>(); } \
	HARNESS(inter_##d##T) { inter<d, T>(); } \
	HARNESS(misc_##d##T) { misc<d, T>(); }
#define COMMON(d, T) \
	HARNESS(common_##d##T) { common<d, T>(); } \
	HARNESS(commonInterior_##d##T) { commonInterior<d, T>(); }
#ifdef LARGE
ALL(5, double) ALL(7, double) ALL(6, int)
#else
ALL(1, double) ALL(2, double) ALL(3, double) ALL(4, double)
ALL(1, float) ALL(2, float) ALL(3, float)
ALL(1, int) ALL(2, int) ALL(3, int)
COMMON(1, double) COMMON(2, double) COMMON(3, double) COMMON(4, double)
COMMON(1, float) COMMON(2, float) COMMON(3, float)
COMMON(1, int) COMMON(2, int) COMMON(3, int)
HARNESS(contains_mixed) {
	R<2, float> a("a", 0); Point<2, double> p;
	bool b = true, c = true;
	for(int i = 0; i < 2; ++i) {
		b = b & ((double) a.p[i] <= p.q[i]) & (p.q[i] <= (double) a.p[i] + a.s[i]);
		c = c & ((double) a.p[i] < p.q[i]) & (p.q[i] < (double) a.p[i] + a.s[i]);
	}
	ENSURE(contains(a.r, p.v) == b, "contains, mixed types");
	ENSURE(containsReal(a.r, p.v) == c, "containsReal, mixed types");
}
#endif
