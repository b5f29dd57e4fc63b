// C21: conversions and checked access
// vc-paths: 20000
// vc-tol: 1e-9
#include "vc.hpp"
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
#include <nytl/mat.hpp>
#include <nytl/rect.hpp>
#include <nytl/simplex.hpp>
#include <stdexcept>
using namespace nytl;
using vc::raw; using vc::eq;

namespace {
// float -> integer conversions are only defined in the range of the integer
template<typename T, typename OT> void inRange(T x) {
	if constexpr(std::is_floating_point_v<T> && std::is_integral_v<OT>) REQUIRE((x > T(-1000000)) & (x < T(1000000)));
}

template<size_t D, typename T, size_t OD, typename OT> void vecConv() {
	Vec<D, T> a;
	vc::fill<T>(a, D, "a");
	auto A = raw<T>(a);
	for(size_t i = 0; i < D; ++i) inRange<T, OT>(A[i]);
	const auto old = a;
	auto b = static_cast<Vec<OD, OT>>(a);
	static_assert(std::is_same_v<decltype(b), Vec<OD, OT>>);
	for(size_t i = 0; i < OD; ++i) {
		if(i < D) ENSURE(eq(raw<OT>(b)[i], (OT) A[i]), "shared component kept");
		else ENSURE(eq(raw<OT>(b)[i], OT(0)), "new component value-initialised");
	}
	for(size_t i = 0; i < D; ++i) ENSURE(eq(A[i], raw<T>(old)[i]), "source unchanged");
}

template<size_t R, size_t C, typename T, size_t OR, size_t OC, typename OT> void matConv() {
	Mat<R, C, T> a;
	vc::fill<T>(a, R * C, "a");
	auto A = raw<T>(a);
	for(size_t i = 0; i < R * C; ++i) inRange<T, OT>(A[i]);
	const auto old = a;
	auto b = static_cast<Mat<OR, OC, OT>>(a);
	for(size_t r = 0; r < OR; ++r) for(size_t c = 0; c < OC; ++c) {
		OT x = raw<OT>(b)[r * OC + c];
		if(r < R && c < C) ENSURE(eq(x, (OT) A[r * C + c]), "shared entry kept");
		else ENSURE(eq(x, OT(0)), "new entry value-initialised");
	}
	for(size_t i = 0; i < R * C; ++i) ENSURE(eq(A[i], raw<T>(old)[i]), "source unchanged");
}

template<size_t D, typename T, size_t OD, typename OT> void rectConv() {
	Rect<D, T> a;
	vc::fill<T>(a.position, D, "p"); vc::fill<T>(a.size, D, "s");
	for(size_t i = 0; i < D; ++i) { inRange<T, OT>(raw<T>(a.position)[i]); inRange<T, OT>(raw<T>(a.size)[i]); }
	auto b = static_cast<Rect<OD, OT>>(a);
	for(size_t i = 0; i < OD; ++i) {
		ENSURE(eq(raw<OT>(b.position)[i], i < D ? (OT) raw<T>(a.position)[i] : OT(0)), "position");
		ENSURE(eq(raw<OT>(b.size)[i], i < D ? (OT) raw<T>(a.size)[i] : OT(0)), "size");
	}
}

template<size_t D, typename T, size_t A, size_t OD, typename OT> void simplexConv() {
	Simplex<D, T, A> a;
	for(size_t i = 0; i <= A; ++i) {
		vc::fill<T>(a.points()[i], D, "p");
		for(size_t k = 0; k < D; ++k) inRange<T, OT>(raw<T>(a.points()[i])[k]);
	}
	const auto ca = a;
	auto b = static_cast<Simplex<OD, OT, A>>(ca);
	for(size_t i = 0; i <= A; ++i) for(size_t k = 0; k < OD; ++k)
		ENSURE(eq(raw<OT>(b.points()[i])[k], k < D ? (OT) raw<T>(ca.points()[i])[k] : OT(0)), "point component");
	Simplex<D, T, A> z;
	for(size_t i = 0; i <= A; ++i) for(size_t k = 0; k < D; ++k) ENSURE(eq(raw<T>(z.points()[i])[k], T(0)), "default simplex is zero");
}

template<typename F> int outcome(F f) {
	try { f(); return 0; } catch(const std::out_of_range&) { return 1; } catch(...) { return 2; }
}

template<size_t R, size_t C, typename T> void matAt() {
	Mat<R, C, T> a;
	vc::fill<T>(a, R * C, "a");
	const auto& ca = a;
	auto A = raw<T>(a);
	ENSURE((a.rows() == R) & (a.cols() == C), "dimensions");
	auto r = vc::any<std::uint64_t>("r"), c = vc::any<std::uint64_t>("c");
	const T* p = nullptr; const T* q = nullptr;
	const void* u = nullptr; const void* v = nullptr;
	int x = outcome([&]{ p = &a.at(r, c); }), y = outcome([&]{ q = &ca.at(r, c); });
	int z = outcome([&]{ u = &a.at(r); }), w = outcome([&]{ v = &ca.at(r); });
	bool okr = r < R, ok = (r < R) & (c < C);
	ENSURE(x == (ok ? 0 : 1), "at(r, c) throws out_of_range exactly for invalid indices");
	ENSURE(y == (ok ? 0 : 1), "const at(r, c) throws out_of_range exactly for invalid indices");
	ENSURE(z == (okr ? 0 : 1), "at(r) throws out_of_range exactly for invalid indices");
	ENSURE(w == (okr ? 0 : 1), "const at(r) throws out_of_range exactly for invalid indices");
	if(x == 0) ENSURE((p == A + r * C + c) & (q == A + r * C + c), "at(r, c) addresses the entry");
	if(z == 0) ENSURE((u == A + r * C) & (v == A + r * C), "at(r) addresses the row");
}

template<size_t D, typename T> void vecIndex() {
	Vec<D, T> a;
	vc::fill<T>(a, D, "a");
	const auto& ca = a;
	auto A = raw<T>(a);
	auto i = vc::any<std::uint64_t>("i");
	const T* p = nullptr; const T* q = nullptr;
	int x = outcome([&]{ p = &a[i]; }), y = outcome([&]{ q = &ca[i]; });
	ENSURE(x == (i < D ? 0 : 1), "[] throws out_of_range exactly for invalid indices");
	ENSURE(y == (i < D ? 0 : 1), "const [] throws out_of_range exactly for invalid indices");
	if(x == 0) ENSURE((p == A + i) & (q == A + i), "[] addresses the component");
}
}

#define V(a, b) \
	HARNESS(vec_##a##_##b) { vecConv<a, double, b, float>(); } \
	HARNESS(vec_f_##a##_##b) { vecConv<a, float, b, double>(); } \
	HARNESS(vec_i_##a##_##b) { vecConv<a, std::int32_t, b, double>(); } \
	HARNESS(vec_d_##a##_##b) { vecConv<a, double, b, std::int32_t>(); } \
	HARNESS(vec_n_##a##_##b) { vecConv<a, std::int32_t, b, std::uint8_t>(); }
#define VV(a) V(a, 1) V(a, 2) V(a, 3) V(a, 4) V(a, 5)
VV(1) VV(2) VV(3) VV(4) VV(5) V(9, 7) V(7, 9) V(9, 9)
#define M(a, b, c, d) \
	HARNESS(mat_##a##b##_##c##d) { matConv<a, b, double, c, d, float>(); } \
	HARNESS(mat_i_##a##b##_##c##d) { matConv<a, b, std::int32_t, c, d, double>(); } \
	HARNESS(mat_d_##a##b##_##c##d) { matConv<a, b, double, c, d, std::int32_t>(); }
M(1, 1, 2, 2) M(2, 2, 3, 3) M(3, 3, 2, 2) M(3, 3, 4, 4) M(4, 4, 3, 3) M(2, 3, 3, 2) M(3, 2, 2, 3) M(2, 4, 4, 2) M(4, 2, 3, 5) M(5, 5, 4, 4) M(4, 4, 5, 5) M(3, 1, 1, 3) M(4, 4, 4, 4) M(2, 5, 5, 5) M(7, 6, 5, 8)
#define RC(a, b) \
	HARNESS(rect_##a##_##b) { rectConv<a, double, b, float>(); } \
	HARNESS(rect_i_##a##_##b) { rectConv<a, std::int32_t, b, double>(); }
RC(1, 2) RC(2, 1) RC(2, 2) RC(2, 3) RC(3, 2) RC(3, 4) RC(4, 2) RC(3, 3) RC(7, 8)
#define SX(d, a, o) \
	HARNESS(simplex_##d##a##_##o) { simplexConv<d, double, a, o, float>(); } \
	HARNESS(simplex_i_##d##a##_##o) { simplexConv<d, std::int32_t, a, o, double>(); }
SX(2, 1, 3) SX(3, 1, 2) SX(2, 2, 3) SX(3, 2, 2) SX(3, 2, 4) SX(3, 3, 4) SX(4, 2, 2) SX(2, 1, 2)
#define AT(r, c) HARNESS(at_##r##c) { matAt<r, c, double>(); }
AT(1, 1) AT(1, 4) AT(2, 2) AT(2, 3) AT(3, 2) AT(3, 3) AT(2, 4) AT(4, 2) AT(4, 4) AT(4, 3) AT(3, 5) AT(5, 2) AT(5, 5) AT(7, 8)
HARNESS(at_int_33) { matAt<3, 3, std::int32_t>(); }
HARNESS(at_int_44) { matAt<4, 4, std::uint8_t>(); }
HARNESS(index_2) { vecIndex<2, double>(); }
HARNESS(index_3) { vecIndex<3, double>(); }
HARNESS(index_2_int) { vecIndex<2, std::int32_t>(); }
HARNESS(index_3_int) { vecIndex<3, std::uint8_t>(); }
