// C24: row reduction
// vc-contract: ^_ZN4nytl5pivot(I.*?EE)Da -> _ZN4spec5pivot\1 -- verified by C24_pivot
// rowEcholon is verified against the contract of pivot (spec::pivot below); pivot is verified against that
// contract by C24_pivot.cpp.
#include "vc.hpp"
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>
using namespace nytl;
using vc::raw; using vc::eq;

namespace spec {
/// contract of nytl::pivot: swaps the given row with one of the considered rows; the new entry is zero only if
/// the entries of all considered rows are
template<size_t R, size_t C, typename T>
auto pivot(Mat<R, C, T>& mat, size_t row, size_t column, bool onlyAfter) {
	ENSURE((row < R) & (column < C), "precondition of pivot");
	size_t first = onlyAfter ? row : 0;
	size_t k = first + vc_choose(R - first);
	T* m = raw<T>(mat);
	for(size_t c = 0; c < C; ++c) { T t = m[row * C + c]; m[row * C + c] = m[k * C + c]; m[k * C + c] = t; }
	if(vc_split(m[row * C + column] == 0))
		for(size_t r = first; r < R; ++r) REQUIRE(m[r * C + column] == 0);
	return m[row * C + column];
}
template<size_t R, size_t C, typename T> void use() {
	auto volatile p = &spec::pivot<R, C, T>; (void) p;
}
}

namespace {
// entries for which a given vector with x[k] = 1 is mapped to zero
template<size_t R, size_t C, typename T> size_t kernel(Mat<R, C, T>& a, T* x) {
	vc::fill<T>(a, R * C, "a");
	size_t k = vc::pick(C, "pickk");
	auto A = raw<T>(a);
	for(size_t c = 0; c < C; ++c) x[c] = c == k ? T(1) : vc::any<T>("x");
	for(size_t r = 0; r < R; ++r) {
		T s = 0;
		for(size_t c = 0; c < C; ++c) if(c != k) s += A[r * C + c] * x[c];
		A[r * C + k] = -s;
	}
	return k;
}

template<size_t R, size_t C, typename T> void echelonForm(const T* E, bool reduced) {
	size_t last = 0; bool any = false, zero = false;
	for(size_t r = 0; r < R; ++r) {
		size_t c = 0;
		while(c < C && eq(E[r * C + c], 0)) ++c;
		if(c == C) { zero = true; continue; }
		ENSURE(!zero, "zero rows come last");
		ENSURE(eq(E[r * C + c], 1), "leading entries are one");
		ENSURE(!any || c > last, "leading entries move strictly right");
		for(size_t i = r + 1; i < R; ++i) ENSURE(eq(E[i * C + c], 0), "zeros below a leading entry");
		if(reduced) for(size_t i = 0; i < r; ++i) ENSURE(eq(E[i * C + c], 0), "zeros above a leading entry");
		last = c; any = true;
	}
}

// every input row is a combination of the result rows
template<size_t R, size_t C, typename T> void form(bool reduced) {
	spec::use<R, C, T>();
	Mat<R, C, T> a;
	vc::fill<T>(a, R * C, "a");
	const auto ca = a;
	auto A = raw<T>(ca);
	if(reduced) reducedRowEcholon(a); else rowEcholon(a);
	auto E = raw<T>(a);
	echelonForm<R, C, T>(E, reduced);
	for(size_t i = 0; i < R; ++i) {
		T w[C];
		for(size_t c = 0; c < C; ++c) w[c] = A[i * C + c];
		for(size_t r = 0; r < R; ++r) {
			size_t c = 0;
			while(c < C && eq(E[r * C + c], 0)) ++c;
			if(c == C) continue;
			T f = w[c];
			for(size_t j = 0; j < C; ++j) w[j] -= f * E[r * C + j];
		}
		for(size_t c = 0; c < C; ++c) ENSURE(eq(w[c], 0), "input rows are combinations of the result rows");
	}
}

// every vector mapped to zero by the input is mapped to zero by the result: the result rows are combinations of the input rows
template<size_t R, size_t C, typename T> void rows(bool reduced) {
	spec::use<R, C, T>();
	Mat<R, C, T> a; T x[C] {};
	kernel<R, C, T>(a, x);
	if(reduced) reducedRowEcholon(a); else rowEcholon(a);
	auto E = raw<T>(a);
	for(size_t r = 0; r < R; ++r) {
		T s = 0;
		for(size_t c = 0; c < C; ++c) s += E[r * C + c] * x[c];
		ENSURE(eq(s, 0), "result rows are combinations of the input rows");
	}
}

template<size_t R, size_t C, typename T, typename TN> void copyForm() {
	spec::use<R, C, TN>();
	Mat<R, C, T> a;
	vc::fill<T>(a, R * C, "a");
	const auto ca = a;
	auto A = raw<T>(ca);
	bool reduced = vc::pick(2, "pickreduced");
	Mat<R, C, TN> e;
	// double is the default precision; natively the rational one
	if(reduced) e = reducedRowEcholonCopy<R, C, T, TN>(a); else e = rowEcholonCopy<R, C, T, TN>(a);
	echelonForm<R, C, TN>(raw<TN>(e), reduced);
	for(size_t i = 0; i < R * C; ++i) ENSURE(raw<T>(a)[i] == A[i], "the copying variants leave the input unchanged");
}
}
using R = vc::Real;
#define F(r, c) \
	HARNESS(ref_##r##c) { form<r, c, R>(false); } \
	HARNESS(rref_##r##c) { form<r, c, R>(true); } \
	HARNESS(copy_##r##c) { copyForm<r, c, R, R>(); }
#define S(r, c) F(r, c) \
	HARNESS(refRows_##r##c) { rows<r, c, R>(false); } \
	HARNESS(rrefRows_##r##c) { rows<r, c, R>(true); }
S(1, 1) S(1, 2) S(2, 1) S(2, 2) S(1, 3) S(3, 1) S(2, 3) S(3, 2) S(3, 3)
S(1, 4) S(4, 1) S(2, 4) S(4, 2) S(4, 3) S(2, 5)
F(3, 4)
HARNESS(ref_44_thorough) { form<4, 4, R>(false); }
HARNESS(rref_44_thorough) { form<4, 4, R>(true); }
// rank decisions of single precision matrices are rounding dependent: natively the same rational instance
#ifdef VC_NATIVE
using FR = vc::Real;
#else
using FR = float;
#endif
HARNESS(copy_float_23) { copyForm<2, 3, FR, R>(); }
HARNESS(copy_float_33) { copyForm<3, 3, FR, R>(); }
HARNESS(ref_float_23) { form<2, 3, FR>(false); }
HARNESS(rref_float_23) { form<2, 3, FR>(true); }
HARNESS(refRows_float_23) { rows<2, 3, FR>(false); }
HARNESS(rrefRows_float_23) { rows<2, 3, FR>(true); }
#ifndef VC_NATIVE
// the default result precision is a field also for integer matrices
template<size_t R, size_t C> void intCopy() {
	spec::use<R, C, double>();
	Mat<R, C, int> a;
	vc::fill<int>(a, R * C, "a");
	const auto ca = a;
	bool reduced = vc::pick(2, "pickreduced");
	auto e = reduced ? reducedRowEcholonCopy(a) : rowEcholonCopy(a);
	echelonForm<R, C, double>(raw<double>(e), reduced);
	for(size_t i = 0; i < R * C; ++i) ENSURE(raw<int>(a)[i] == raw<int>(ca)[i], "the copying variants leave the input unchanged");
}
HARNESS(copy_int_22) { intCopy<2, 2>(); }
#else
HARNESS(copy_int_22) {}
#endif
