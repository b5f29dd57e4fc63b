// C13: spans view exactly the described elements. Element counts, offsets, counts and indices are symbolic (any size);
// comparisons are unrolled for up to three elements per side.
#include "vc.hpp"
#include <nytl/span.hpp>
#include <vector>
#include <string>
using namespace nytl;
using std::size_t;

namespace {
/// element types: trivial of several sizes, and a class that counts copies
struct Three { unsigned char c[3]; };
struct Rec { std::int64_t a; std::int32_t b, c; };
struct Counted {
	static inline int ops = 0;
	std::int32_t v;
	Counted(int x = 0) : v(x) {}
	Counted(const Counted& o) : v(o.v) { ++ops; }
	Counted& operator=(const Counted& o) { v = o.v; ++ops; return *this; }
	~Counted() {}
	friend bool operator==(const Counted& a, const Counted& b) { return a.v == b.v; }
	friend bool operator<(const Counted& a, const Counted& b) { return a.v < b.v; }
};
bool operator==(const Rec& a, const Rec& b) { return a.a == b.a && a.c == b.c; }
bool operator<(const Rec& a, const Rec& b) { return a.a < b.a; }

/// any number of elements
template<typename T> T* some(size_t& n) {
	n = vc::any<std::uint64_t>("n");
#ifdef VC_NATIVE
	n %= 50;
#else
	REQUIRE(n < (1ull << 40));
#endif
	return reinterpret_cast<T*>(vc_bytes("mem", n * sizeof(T)));
}
/// an index below n
bool below(size_t& i, size_t n, const char* name) {
	i = vc::any<std::uint64_t>(name);
#ifdef VC_NATIVE
	if(n) i %= n;
#endif
	return vc_split(i < n);
}
bool upTo(size_t& i, size_t n, const char* name) {
	i = vc::any<std::uint64_t>(name);
#ifdef VC_NATIVE
	i %= n + 1;
#endif
	return vc_split(i <= n);
}

bool haveIndex; size_t anIndex;
/// one arbitrary index per run
size_t index(size_t n) {
	if(!haveIndex) { haveIndex = true; anIndex = vc::any<std::uint64_t>("i"); }
#ifdef VC_NATIVE
	return n ? anIndex % n : 0;
#else
	return anIndex;
#endif
}
/// s views the n elements at p
template<typename S, typename T> void views(const S& s, T* p, size_t n, const char* what) {
	ENSURE(s.data() == p, what);
	ENSURE(s.size() == n, what);
	ENSURE(s.size_bytes() == n * sizeof(T) && s.empty() == (n == 0), "byte size and emptiness");
	ENSURE(s.begin() == p && s.end() == p + n && s.cbegin() == p && s.cend() == p + n, "iterators");
	ENSURE(s.rbegin().base() == p + n && s.rend().base() == p && s.crbegin().base() == p + n && s.crend().base() == p, "reverse iterators");
	size_t i = index(n);
	if(!vc_split(i < n)) return;
	ENSURE(&s[i] == p + i && &s(i) == p + i, "indexed access");
	ENSURE(&*(s.begin() + i) == p + i && &*(s.cbegin() + i) == p + i, "forward iteration");
	ENSURE(&*(s.rbegin() + i) == p + (n - 1 - i) && &*(s.crbegin() + i) == p + (n - 1 - i), "backward iteration");
	auto it = s.begin() + i; ++it;
	auto rit = s.rbegin() + i; ++rit;
	ENSURE((it == s.end()) == (i + 1 == n) && (rit == s.rend()) == (i + 1 == n), "iteration ends after the last element");
	ENSURE(&s.front() == p && &s.back() == p + (n - 1), "front and back");
}
template<typename T> struct Cont {
	T* d; size_t n;
	using value_type = T;
	T* data() { return d; } const T* data() const { return d; }
	size_t size() const { return n; }
};
template<typename T> void construct() {
	size_t n; T* p = some<T>(n);
	Counted::ops = 0;
	auto kind = vc::pick(12, "pickkind");
	Cont<T> c {p, n}; const Cont<T> cc {p, n};
	switch(kind) {
		case 0: views(span<T>(p, n), p, n, "pointer and count"); break;
		case 1: views(span<T>(p, p + n), p, n, "pointer pair"); break;
		case 2: views(span<const T>(p, n), (const T*) p, n, "pointer and count, const"); break;
		case 3: views(span<const T>(p, p + n), (const T*) p, n, "pointer pair, const"); break;
		case 4: views(span<T>(c), p, n, "container"); break;
		case 5: views(span<const T>(c), (const T*) p, n, "container as const"); break;
		case 6: views(span<const T>(cc), (const T*) p, n, "const container"); break;
		case 7: { span<T> s(p, n); views(span<T>(s), p, n, "other span"); views(span<const T>(s), (const T*) p, n, "other span as const"); break; }
		case 8: { span<T> s(p, n), t; t = s; views(t, p, n, "assigned span"); views(s, p, n, "source of the assignment"); break; }
		case 9: { views(make_span(p, n), p, n, "make_span of pointer and count"); views(make_span(p, p + n), p, n, "make_span of a pointer pair"); break; }
		case 10: { views(make_span(c), p, n, "make_span of a container"); views(make_span(cc), (const T*) p, n, "make_span of a const container"); break; }
		case 11: { span a(c); span b(cc); static_assert(std::is_same_v<decltype(a), span<T>> && std::is_same_v<decltype(b), span<const T>>);
			views(a, p, n, "deduced"); views(b, (const T*) p, n, "deduced const"); break; }
	}
	ENSURE(Counted::ops == 0, "no element is copied");
}
template<typename T, size_t N> void fixedFrom() {
	T* p = reinterpret_cast<T*>(vc_bytes("mem", N * sizeof(T)));
	auto kind = vc::pick(6, "pickkind");
	Cont<T> c {p, N};
	switch(kind) {
		case 0: views(span<T, N>(p, N), p, N, "fixed from pointer and count"); break;
		case 1: views(span<T, N>(p, p + N), p, N, "fixed from pointer pair"); break;
		case 2: views(span<const T, N>(c), (const T*) p, N, "fixed from container"); break;
		case 3: { span<T> s(p, N); views(span<T, N>(s), p, N, "fixed from dynamic"); views(span<const T, N>(s), (const T*) p, N, "fixed const from dynamic"); break; }
		case 4: { span<T, N> s(p, N); views(span<T>(s), p, N, "dynamic from fixed"); views(span<const T, N>(s), (const T*) p, N, "fixed const from fixed"); break; }
		case 5: { span<T, N> s(p, N); auto t = s; views(t, p, N, "copy of fixed"); span<T, N> u(p, N); u = t; views(u, p, N, "assigned fixed"); break; }
	}
	ENSURE((span<T, N>::extent == N) && (span<T>::extent == dynamic_extent), "extent");
}
template<typename T, size_t N> void arrays() {
	Counted::ops = 0;
	if constexpr(N > 0) {
		T arr[N]; const T* p = arr; auto& carr = const_cast<const T(&)[N]>(arr);
		views(span<T>(arr), arr, N, "array"); views(span<T, N>(arr), arr, N, "array, fixed");
		views(span<const T>(arr), p, N, "array as const"); views(span<const T, N>(carr), p, N, "const array, fixed"); views(span<const T>(carr), p, N, "const array");
		views(make_span(arr), arr, N, "make_span of an array");
		span d(arr); static_assert(std::is_same_v<decltype(d), span<T, N>>); views(d, arr, N, "deduced from an array");
	}
	std::array<T, N> a; const auto& ca = a; const T* q = a.data();
	views(span<T>(a), a.data(), N, "std::array"); views(span<T, N>(a), a.data(), N, "std::array, fixed");
	views(span<const T>(a), q, N, "std::array as const"); views(span<const T, N>(a), q, N, "std::array as const, fixed");
	views(span<const T>(ca), q, N, "const std::array"); views(span<const T, N>(ca), q, N, "const std::array, fixed");
	span e(a); static_assert(std::is_same_v<decltype(e), span<T, N>>); views(e, a.data(), N, "deduced from std::array");
	span f(ca); static_assert(std::is_same_v<decltype(f), span<const T, N>>); views(f, q, N, "deduced from const std::array");
	ENSURE(Counted::ops == 0, "no element is copied");
}
template<typename T> void vectors() {
	std::vector<T> v(vc::pick(4, "picksize")); const auto& cv = v;
	Counted::ops = 0;
	views(span<T>(v), v.data(), v.size(), "vector"); views(span<const T>(cv), cv.data(), v.size(), "const vector");
	views(make_span(v), v.data(), v.size(), "make_span of a vector"); views(make_span(cv), cv.data(), v.size(), "make_span of a const vector");
	ENSURE(Counted::ops == 0, "no element is copied");
}
template<typename T> void sub() {
	size_t n; T* p = some<T>(n);
	span<T> s(p, n);
	size_t o, c;
	if(!upTo(o, n, "offset")) return;
	auto kind = vc::pick(4, "pickkind");
	switch(kind) {
		case 0: views(s.first(o), p, o, "first"); break;
		case 1: views(s.last(o), p + (n - o), o, "last"); break;
		case 2: views(s.subspan(o), p + o, n - o, "subspan"); break;
		case 3: if(upTo(c, n - o, "count")) views(s.subspan(o, c), p + o, c, "subspan with count"); break;
	}
	views(s, p, n, "the original span is unchanged");
}
template<typename T, size_t N> void subFixed() {
	T* p = reinterpret_cast<T*>(vc_bytes("mem", N * sizeof(T)));
	span<T, N> s(p, N);
	size_t o, c;
	if(!upTo(o, N, "offset")) return;
	auto kind = vc::pick(4, "pickkind");
	switch(kind) {
		case 0: views(s.first(o), p, o, "first"); break;
		case 1: views(s.last(o), p + (N - o), o, "last"); break;
		case 2: views(s.subspan(o), p + o, N - o, "subspan"); break;
		case 3: if(upTo(c, N - o, "count")) views(s.subspan(o, c), p + o, c, "subspan with count"); break;
	}
}
template<typename T> void subStatic() {
	size_t n; T* p = some<T>(n);
	REQUIRE(n >= 5);
	span<T> s(p, n);
	views(s.template first<0>(), p, 0, "first<0>"); views(s.template first<3>(), p, 3, "first<3>");
	views(s.template last<0>(), p + n, 0, "last<0>"); views(s.template last<2>(), p + (n - 2), 2, "last<2>");
	views(s.template subspan<2>(), p + 2, n - 2, "subspan<2>"); views(s.template subspan<0>(), p, n, "subspan<0>");
	views(s.template subspan<1, 3>(), p + 1, 3, "subspan<1, 3>"); views(s.template subspan<4, 0>(), p + 4, 0, "subspan<4, 0>");
	static_assert(std::is_same_v<decltype(s.template first<3>()), span<T, 3>> && std::is_same_v<decltype(s.template last<2>()), span<T, 2>> &&
		std::is_same_v<decltype(s.template subspan<2>()), span<T>> && std::is_same_v<decltype(s.template subspan<1, 3>()), span<T, 3>>);
}
template<typename T> void subStaticFixed() {
	T* p = reinterpret_cast<T*>(vc_bytes("mem", 7 * sizeof(T)));
	span<T, 7> s(p, 7);
	views(s.template first<7>(), p, 7, "first<7>"); views(s.template first<1>(), p, 1, "first<1>"); views(s.template last<7>(), p, 7, "last<7>");
	views(s.template last<3>(), p + 4, 3, "last<3>"); views(s.template last<0>(), p + 7, 0, "last<0>");
	views(s.template subspan<3>(), p + 3, 4, "subspan<3>"); views(s.template subspan<7>(), p + 7, 0, "subspan<7>"); views(s.template subspan<0>(), p, 7, "subspan<0>");
	views(s.template subspan<2, 4>(), p + 2, 4, "subspan<2, 4>"); views(s.template subspan<6, 1>(), p + 6, 1, "subspan<6, 1>");
	static_assert(std::is_same_v<decltype(s.template subspan<3>()), span<T, 4>> && std::is_same_v<decltype(s.template subspan<2, 4>()), span<T, 4>>);
}
template<typename T> void bytesOf() {
	size_t n; T* p = some<T>(n);
	auto b = reinterpret_cast<std::byte*>(p);
	views(as_bytes(span<T>(p, n)), (const std::byte*) b, n * sizeof(T), "bytes");
	views(as_bytes(span<const T>(p, n)), (const std::byte*) b, n * sizeof(T), "bytes of const");
	views(as_writeable_bytes(span<T>(p, n)), b, n * sizeof(T), "writeable bytes");
	T* q = reinterpret_cast<T*>(vc_bytes("mem", 5 * sizeof(T)));
	auto d = reinterpret_cast<std::byte*>(q);
	views(as_bytes(span<T, 5>(q, 5)), (const std::byte*) d, 5 * sizeof(T), "bytes, fixed");
	views(as_writeable_bytes(span<T, 5>(q, 5)), d, 5 * sizeof(T), "writeable bytes, fixed");
	static_assert(decltype(as_bytes(span<T, 5>(q, 5)))::extent == 5 * sizeof(T) && decltype(as_bytes(span<T>(p, n)))::extent == dynamic_extent);
}
template<typename T> void empty() {
	span<T> s; span<const T> c; span<T, 0> z(nullptr, (size_t) 0);
	views(s, (T*) nullptr, 0, "default span"); views(c, (const T*) nullptr, 0, "default const span"); views(z, (T*) nullptr, 0, "empty fixed span");
	views(span<T>((T*) nullptr, (size_t) 0), (T*) nullptr, 0, "null pointer"); views(s.first(0), (T*) nullptr, 0, "part of an empty span"); views(s.subspan(0), (T*) nullptr, 0, "part of an empty span");
}
/// reads and writes go to the viewed memory
template<typename T> void access() {
	size_t n; T* p = some<T>(n); size_t i, j;
	if(!below(i, n, "i") || !below(j, n, "j")) return;
	T v = vc::any<T>("v"), old = p[j];
	span<T> s(p, n); const span<T> cs(s);
	cs[i] = v;
	ENSURE(p[i] == v && s[i] == v && *(s.begin() + i) == v, "written through");
	if(i != j) ENSURE(p[j] == old && s[j] == old, "nothing else is written");
}

// -- comparison
template<typename T> bool eqAll(const T* a, size_t n, const T* b, size_t m) {
	if(n != m) return false;
	for(size_t i = 0; i < n; ++i) if(!(a[i] == b[i])) return false;
	return true;
}
template<typename T> bool less(const T* a, size_t n, const T* b, size_t m) {
	for(size_t i = 0; i < n && i < m; ++i) { if(a[i] < b[i]) return true; if(b[i] < a[i]) return false; }
	return n < m;
}
template<typename T> void set(T& x, const char* n) { if constexpr(std::is_integral_v<T>) x = vc::any<T>(n); else if constexpr(std::is_same_v<T, Counted>) x.v = vc::any<std::int32_t>(n); else { x.a = vc::any<std::int64_t>(n); x.b = vc::any<std::int32_t>(n); x.c = vc::any<std::int32_t>(n); } }
template<typename T, bool fixed> void comparing() {
	T a[3], b[3];
	size_t n = 3, m = 3;
	if(!fixed) { n = vc::pick(4, "pickn"); m = vc::pick(4, "pickm"); }
	for(size_t i = 0; i < n; ++i) set(a[i], "a");
	for(size_t i = 0; i < m; ++i) set(b[i], "b");
	bool alias = !fixed && n <= m && vc::pick(2, "pickalias");
	const T* q = alias ? a : b; if(alias) m = n;
	if constexpr(fixed) {
		span<const T, 3> x(a), y(b);
		ENSURE((x == y) == eqAll(a, 3, b, 3), "equal"); ENSURE((x != y) == !eqAll(a, 3, b, 3), "not equal");
		ENSURE((x < y) == less(a, 3, b, 3), "less"); ENSURE((x > y) == less(b, 3, a, 3), "greater");
		ENSURE((x <= y) == !less(b, 3, a, 3), "not greater"); ENSURE((x >= y) == !less(a, 3, b, 3), "not less");
	} else {
		span<const T> x(a, n), y(q, m);
		ENSURE((x == y) == eqAll(a, n, q, m), "equal"); ENSURE((x != y) == !eqAll(a, n, q, m), "not equal");
		ENSURE((x < y) == less(a, n, q, m), "less"); ENSURE((x > y) == less(q, m, (const T*) a, n), "greater");
		ENSURE((x <= y) == !less(q, m, (const T*) a, n), "not greater"); ENSURE((x >= y) == !less((const T*) a, n, q, m), "not less");
		if(m == 3) ENSURE((x == span<const T, 3>(q, 3)) == eqAll(a, n, q, 3), "equal, mixed extents");
	}
}
}
#define TYPES(f) HARNESS(f##_byte) { haveIndex = false; f<unsigned char>(); } HARNESS(f##_three) { haveIndex = false; f<Three>(); } HARNESS(f##_int) { haveIndex = false; f<std::int32_t>(); } HARNESS(f##_rec) { haveIndex = false; f<Rec>(); } HARNESS(f##_counted) { haveIndex = false; f<Counted>(); }
TYPES(construct) TYPES(sub) TYPES(subStatic) TYPES(subStaticFixed) TYPES(bytesOf) TYPES(empty) TYPES(vectors)
#define FIXED(f, N) HARNESS(f##_##N##_byte) { haveIndex = false; f<unsigned char, N>(); } HARNESS(f##_##N##_int) { haveIndex = false; f<std::int32_t, N>(); } HARNESS(f##_##N##_counted) { haveIndex = false; f<Counted, N>(); }
FIXED(fixedFrom, 0) FIXED(fixedFrom, 1) FIXED(fixedFrom, 4) FIXED(arrays, 0) FIXED(arrays, 1) FIXED(arrays, 4) FIXED(subFixed, 0) FIXED(subFixed, 1) FIXED(subFixed, 6)
HARNESS(access_byte) { access<std::uint8_t>(); }
HARNESS(access_int) { access<std::int32_t>(); }
HARNESS(access_long) { access<std::uint64_t>(); }
HARNESS(compare_byte) { comparing<std::uint8_t, false>(); }
HARNESS(compare_sbyte) { comparing<std::int8_t, false>(); }
HARNESS(compare_int) { comparing<std::int32_t, false>(); }
HARNESS(compare_uint_fixed) { comparing<std::uint32_t, true>(); }
HARNESS(compare_rec) { comparing<Rec, false>(); }
HARNESS(compare_counted) { comparing<Counted, false>(); }
HARNESS(compare_counted_fixed) { comparing<Counted, true>(); }
