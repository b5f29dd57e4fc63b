// C28: rectangle difference
#include "vc.hpp"
#include <nytl/rect.hpp>
#include <nytl/rectOps.hpp>
using namespace nytl;
using vc::raw; using vc::eq;

namespace {
template<typename T> bool atMost(T a, T b) {
	if constexpr(std::is_floating_point_v<T>) return vc::le(a, b); else return a <= b;
}
template<size_t D, typename T> struct R {
	Rect<D, T> r; T p[D], s[D];
	R(const char* name) {
		vc::fill<T>(r.position, D, name); vc::fill<T>(r.size, D, name);
		for(size_t i = 0; i < D; ++i) {
			T& x = raw<T>(r.position)[i]; T& y = raw<T>(r.size)[i];
			if constexpr(std::is_integral_v<T>) {
				if(!vc::replaying()) { x %= 8; y %= 8; }
				REQUIRE((x > -(1 << 28)) & (x < (1 << 28)) & (y < (1 << 28)));
			}
			if(!vc::replaying() && y < 0) y = -y;
			p[i] = x; s[i] = y;
			REQUIRE(s[i] > 0);
		}
	}
	explicit R(const Rect<D, T>& x) : r(x) { for(size_t i = 0; i < D; ++i) { p[i] = raw<T>(r.position)[i]; s[i] = raw<T>(r.size)[i]; } }
	// w: points of a grid twice as fine for integers, so that every cell between grid lines has a point
	bool has(const T* q, T w) const { bool b = true; for(size_t i = 0; i < D; ++i) b = b & atMost<T>(w * p[i], q[i]) & atMost<T>(q[i], w * (p[i] + s[i])); return b; }
	bool inside(const T* q, T w) const { bool b = true; for(size_t i = 0; i < D; ++i) b = b & (w * p[i] < q[i]) & (q[i] < w * (p[i] + s[i])); return b; }
};

template<size_t D, typename T> void diff() {
	R<D, T> a("a"), b("b");
	auto l = difference(a.r, b.r);
	bool proper = true, within = true, same = true;
	for(size_t i = 0; i < D; ++i) {
		proper = proper & (a.p[i] < b.p[i] + b.s[i]) & (b.p[i] < a.p[i] + a.s[i]);
		within = within & (b.p[i] <= a.p[i]) & (a.p[i] + a.s[i] <= b.p[i] + b.s[i]);
		same = same & eq(raw<T>(a.r.position)[i], a.p[i]) & eq(raw<T>(a.r.size)[i], a.s[i]) &
			eq(raw<T>(b.r.position)[i], b.p[i]) & eq(raw<T>(b.r.size)[i], b.s[i]);
	}
	ENSURE(same, "operands unchanged");
	if(vc_split(!proper)) {
		ENSURE(l.size() == 1, "no proper overlap: one rectangle");
		if(l.size() != 1) return;
		bool first = true;
		for(size_t i = 0; i < D; ++i) first = first & eq(raw<T>(l[0].position)[i], a.p[i]) & eq(raw<T>(l[0].size)[i], a.s[i]);
		ENSURE(first, "no proper overlap: the first rectangle");
		return;
	}
	ENSURE((l.size() == 0) | !within, "empty when the first lies inside the second");
	for(size_t i = 0; i < l.size(); ++i) {
		bool pos = true;
		for(size_t k = 0; k < D; ++k) pos = pos & (raw<T>(l[i].size)[k] > 0);
		ENSURE(pos, "rectangles of the difference have positive size");
		for(size_t j = 0; j < i; ++j) {
			bool apart = false;
			for(size_t k = 0; k < D; ++k) {
				T x = raw<T>(l[i].position)[k], xs = raw<T>(l[i].size)[k], y = raw<T>(l[j].position)[k], ys = raw<T>(l[j].size)[k];
				apart = apart | atMost<T>(x + xs, y) | atMost<T>(y + ys, x);
			}
			ENSURE(apart, "rectangles of the difference have disjoint interiors");
		}
	}
	T q[D];
	const T w = std::is_integral_v<T> ? 2 : 1;
	for(size_t k = 0; k < D; ++k) {
		q[k] = vc::any<T>("point");
		if constexpr(std::is_integral_v<T>) {
			if(!vc::replaying()) q[k] %= 32;
			REQUIRE((q[k] > -(1 << 30)) & (q[k] < (1 << 30)));
		}
	}
	bool covered = false;
	for(size_t i = 0; i < l.size(); ++i) {
		R<D, T> c(l[i]);
		covered = covered | c.has(q, w);
		ENSURE(!c.inside(q, w) | (a.inside(q, w) & !b.inside(q, w)), "the difference covers no point outside the first or inside the second");
	}
	ENSURE(!(a.inside(q, w) & !b.has(q, w)) | covered, "the difference covers the rest of the first rectangle");
}
}
#ifdef LARGE
HARNESS(diff_4) { diff<4, double>(); }
HARNESS(diff_5) { diff<5, double>(); }
HARNESS(diff_i5) { diff<5, int>(); }
#else
HARNESS(diff_1) { diff<1, double>(); }
HARNESS(diff_2) { diff<2, double>(); }
HARNESS(diff_3) { diff<3, double>(); }
HARNESS(diff_f1) { diff<1, float>(); }
HARNESS(diff_f2) { diff<2, float>(); }
HARNESS(diff_i1) { diff<1, int>(); }
HARNESS(diff_i2) { diff<2, int>(); }
HARNESS(diff_i3_thorough) { diff<3, int>(); }
HARNESS(diff_f3_thorough) { diff<3, float>(); }
#endif
