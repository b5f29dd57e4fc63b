// C23: structural matrix operations
// vc-tol: 1e-9
#include "vc.hpp"
#include <nytl/mat.hpp>
#include <nytl/vecOps.hpp>
#include <nytl/matOps.hpp>
using namespace nytl;
using vc::raw; using vc::eq; using vc::le;

namespace {
template<size_t R, size_t C, typename T> void structure() {
	Mat<R, C, T> a;
	vc::fill<T>(a, R * C, "a");
	const auto ca = a;
	auto A = raw<T>(ca);
	auto at = [&](const auto& m, size_t r, size_t c) { return raw<T>(m)[r * C + c]; };

	auto t = transpose(a);
	static_assert(t.rows() == C && t.cols() == R);
	for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c) {
		ENSURE(eq(raw<T>(t)[c * R + r], A[r * C + c]), "transposed entry");
		ENSURE(eq(at(a, r, c), A[r * C + c]), "transpose leaves its operand unchanged");
	}

	size_t n = vc::pick(C, "pickcol");
	auto col1 = col(a, n);
	for(size_t r = 0; r < R; ++r) ENSURE(eq(raw<T>(col1)[r], A[r * C + n]), "column read");
	Vec<R, T> v;
	vc::fill<T>(v, R, "v");
	auto b = a;
	col(b, n, v);
	for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c)
		ENSURE(eq(at(b, r, c), c == n ? raw<T>(v)[r] : A[r * C + c]), "column replaced, others kept");

	size_t m = vc::pick(C, "pickcol2");
	auto d = a;
	swapCol(d, n, m);
	for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c)
		ENSURE(eq(at(d, r, c), A[r * C + (c == n ? m : c == m ? n : c)]), "columns swapped, others kept");
}

template<size_t R, size_t C, typename T> void rows() {
	Mat<R, C, T> a;
	vc::fill<T>(a, R * C, "a");
	const auto ca = a;
	auto A = raw<T>(ca);
	size_t n = vc::pick(R, "pickrow"), m = vc::pick(R, "pickrow2");
	auto d = a;
	swapRow(d, n, m);
	for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c)
		ENSURE(eq(raw<T>(d)[r * C + c], A[(r == n ? m : r == m ? n : r) * C + c]), "rows swapped, others kept");
	auto o = a;
	one(o);
	for(size_t i = 0; i < R * C; ++i) ENSURE(eq(raw<T>(o)[i], T(1)), "filled with ones");
}

template<size_t D, typename T> void squareOps() {
	Mat<D, D, T> a;
	vc::fill<T>(a, D * D, "a");
	const auto ca = a;
	auto A = raw<T>(ca);
	T s = A[0], p = A[0];
	for(size_t i = 1; i < D; ++i) { s += A[i * D + i]; p *= A[i * D + i]; }
	ENSURE(eq(trace(a), s), "trace");
	ENSURE(eq(multiplyDiagonal(a), p), "diagonal product");
	bool sym = true;
	for(size_t r = 0; r < D; ++r) for(size_t c = 0; c < D; ++c) sym = sym & (A[r * D + c] == A[c * D + r]);
	bool got = symmetric(a);
	ENSURE(got == sym, "symmetric exactly when equal to the transpose");
	for(size_t i = 0; i < D * D; ++i) ENSURE(eq(raw<T>(a)[i], A[i]), "operand unchanged");
	size_t k = vc::pick(D, "pickown"), l = vc::pick(D, "pickown2");
	auto own = a;
	col(own, k, own[l]);
	for(size_t r = 0; r < D; ++r) for(size_t c = 0; c < D; ++c)
		ENSURE(eq(raw<T>(own)[r * D + c], c == k ? A[l * D + r] : A[r * D + c]), "column replaced by one of the rows, others kept");
	identity(a);
	auto e = identity<D, T>();
	for(size_t r = 0; r < D; ++r) for(size_t c = 0; c < D; ++c) {
		ENSURE(eq(raw<T>(a)[r * D + c], T(r == c)), "identity set");
		ENSURE(eq(raw<T>(e)[r * D + c], T(r == c)), "identity returned");
	}
}

template<size_t R, size_t C, typename T> void pivots(bool after) {
	Mat<R, C, T> a;
	vc::fill<T>(a, R * C, "a");
	const auto ca = a;
	auto A = raw<T>(ca);
	auto mag = [](T x) { return x < 0 ? T(-x) : x; };
	if(std::is_integral_v<T>) for(size_t i = 0; i < R * C; ++i) REQUIRE((A[i] > T(-1000000)));
	size_t row = vc::pick(R, "pickrow"), column = vc::pick(C, "pickcol");
	T res = pivot(a, row, column, after);
	auto B = raw<T>(a);
	ENSURE(eq(res, B[row * C + column]), "pivot returns the new entry");
	// the considered rows
	for(size_t r = after ? row : 0; r < R; ++r)
		ENSURE(mag(A[r * C + column]) <= mag(res), "largest magnitude among the considered rows");
	// some row of the considered ones was swapped with the given row
	bool any = false;
	for(size_t k = after ? row : 0; k < R; ++k) {
		bool is = true;
		for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c)
			is = is & eq(B[r * C + c], A[(r == row ? k : r == k ? row : r) * C + c]);
		any = any | is;
	}
	ENSURE(any, "the given row is swapped with one considered row, others kept");
}
}

#define ST(r, c) \
	HARNESS(structure_##r##c) { structure<r, c, double>(); } \
	HARNESS(structure_int_##r##c) { structure<r, c, std::int32_t>(); } \
	HARNESS(rows_##r##c) { rows<r, c, double>(); } \
	HARNESS(rows_int_##r##c) { rows<r, c, std::int32_t>(); }
ST(1, 1) ST(2, 2) ST(3, 3) ST(4, 4) ST(2, 3) ST(3, 2) ST(1, 4) ST(4, 1) ST(2, 4) ST(4, 2) ST(3, 4) ST(4, 3) ST(5, 5) ST(7, 8)
#define SQ(d) \
	HARNESS(square_##d) { squareOps<d, double>(); } \
	HARNESS(square_int_##d) { squareOps<d, std::int32_t>(); }
SQ(1) SQ(2) SQ(3) SQ(4) SQ(7)
#define PV(r, c) \
	HARNESS(pivot_##r##c) { pivots<r, c, double>(false); } \
	HARNESS(pivot_after_##r##c) { pivots<r, c, double>(true); } \
	HARNESS(pivot_int_##r##c) { pivots<r, c, std::int32_t>(false); } \
	HARNESS(pivot_after_int_##r##c) { pivots<r, c, std::int32_t>(true); }
PV(1, 1) PV(2, 2) PV(3, 3) PV(2, 3) PV(3, 2) PV(4, 2) PV(2, 4)
