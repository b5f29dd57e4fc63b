// C27: containment and intersection tests of operands with different types
// vc-tol: 1e-9
// vc-noround: .*
#include "vc.hpp"
#include <nytl/rect.hpp>
#include <nytl/rectOps.hpp>
using namespace nytl;
using vc::raw;

namespace {
// small values: common arithmetic types hold them exactly
template<typename T, typename V> void small(V& v, size_t n, bool positive, const char* name) {
	vc::fill<T>(v, n, name);
	for(size_t i = 0; i < n; ++i) {
		T& x = raw<T>(v)[i];
		if constexpr(std::is_integral_v<T>) if(!vc::replaying()) x %= 8;
		if(!vc::replaying() && positive && x < 0) x = -x;
		REQUIRE((double(x) <= 1000) & (double(x) >= -1000));
		if(positive) REQUIRE(x > 0);
	}
}
template<size_t D, typename T1, typename T2> struct Two {
	Rect<D, T1> a; Rect<D, T2> b; Vec<D, T2> p;
	bool in = true, inside = true, meet = true, overlap = true, same = true;
	Two() {
		small<T1>(a.position, D, false, "a"); small<T1>(a.size, D, true, "a");
		small<T2>(b.position, D, false, "b"); small<T2>(b.size, D, true, "b");
		small<T2>(p, D, false, "p");
		for(size_t i = 0; i < D; ++i) {
			T1 x = raw<T1>(a.position)[i], s = raw<T1>(a.size)[i]; T2 y = raw<T2>(b.position)[i], t = raw<T2>(b.size)[i], q = raw<T2>(p)[i];
			auto e = x + s; auto f = y + t;
			in = in & (x <= q) & (q <= e);
			inside = inside & (x < q) & (q < e);
			meet = meet & (x <= f) & (y <= e);
			overlap = overlap & (x < f) & (y < e);
			same = same & (x == y) & (s == t);
		}
	}
};
}
#define T(d, A, B) \
	HARNESS(contains_##A##B##d) { Two<d, A, B> t; ENSURE(contains(t.a, t.p) == t.in, "contains, mixed types"); } \
	HARNESS(containsReal_##A##B##d) { Two<d, A, B> t; ENSURE(containsReal(t.a, t.p) == t.inside, "containsReal, mixed types"); } \
	HARNESS(intersects_##A##B##d) { Two<d, A, B> t; ENSURE(intersects(t.a, t.b) == t.meet, "intersects, mixed types"); } \
	HARNESS(intersectsReal_##A##B##d) { Two<d, A, B> t; ENSURE(intersectsReal(t.a, t.b) == t.overlap, "intersectsReal, mixed types"); } \
	HARNESS(equal_##A##B##d) { Two<d, A, B> t; ENSURE((t.a == t.b) == t.same, "equality, mixed types"); ENSURE((t.a != t.b) == !t.same, "inequality, mixed types"); }
#define M(d) T(d, int, double) T(d, double, int) T(d, float, double) T(d, double, float) T(d, short, int) T(d, float, int)
M(1) M(2) M(3)
