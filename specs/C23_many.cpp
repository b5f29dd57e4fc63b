// C23: hundreds of rows and columns, natively
// vc-mode: native
// vc-noenum: 1
// vc-runs: 100
#include "vc.hpp"
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>
#include <memory>
#include <cmath>
using namespace nytl; using vc::raw;
namespace {
template<typename T> void fill(T* a, size_t n) { auto m = vc::pick(90, "pickfactor") + 2, s = vc::pick(90, "pickoffset"); for(size_t i = 0; i < n; ++i) a[i] = T((i * m + s) % 97) - 48; }
template<size_t R, size_t C> void entries() {
	Mat<R, C, double> a; auto A = raw<double>(a); fill(A, R * C);
	auto is = [&](const auto& v, auto f, const char* l) { bool ok = true; for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c) ok &= raw<double>(v)[r * C + c] == f(r, c); ENSURE(ok, l); };
	auto old = [&](size_t r, size_t c) { return A[r * C + c]; };
	{ auto t = transpose(a); bool ok = true; for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c) ok &= raw<double>(t)[c * R + r] == old(r, c); ENSURE(ok, "transpose"); }
	size_t c0 = vc::pick(C, "pickcolumn"), c1 = vc::pick(C, "pickcolumn2"), r0 = vc::pick(R, "pickrow"), r1 = vc::pick(R, "pickrow2");
	{ auto k = col(a, c0); bool ok = true; for(size_t r = 0; r < R; ++r) ok &= raw<double>(k)[r] == old(r, c0); ENSURE(ok, "column");
	  auto b = a; col(b, c1, k); is(b, [&](size_t r, size_t c) { return c == c1 ? old(r, c0) : old(r, c); }, "replacing a column"); }
	{ auto b = a; swapRow(b, r0, r1); is(b, [&](size_t r, size_t c) { return old(r == r0 ? r1 : r == r1 ? r0 : r, c); }, "swapping rows"); }
	{ auto b = a; swapCol(b, c0, c1); is(b, [&](size_t r, size_t c) { return old(r, c == c0 ? c1 : c == c1 ? c0 : c); }, "swapping columns"); }
	{ auto b = a; one(b); is(b, [&](size_t, size_t) { return 1.0; }, "ones"); }
	for(bool after : {false, true}) {
		auto b = a; auto x = pivot(b, r0, c0, after);
		double best = 0; for(size_t r = after ? r0 : 0; r < R; ++r) best = std::max(best, std::abs(old(r, c0)));
		ENSURE(std::abs(x) == best && raw<double>(b)[r0 * C + c0] == x, "pivot of largest magnitude");
	}
}
template<size_t D> void square() {
	auto pa = std::make_unique<Mat<D, D, double>>(); auto& a = *pa; auto A = raw<double>(a); fill(A, D * D);
	double t = 0; for(size_t i = 0; i < D; ++i) t += A[i * D + i];
	ENSURE(trace(a) == t, "trace");
	bool sym = true; for(size_t r = 0; r < D; ++r) for(size_t c = 0; c < r; ++c) sym &= A[r * D + c] == A[c * D + r];
	ENSURE(symmetric(a) == sym, "symmetry");
	for(size_t r = 0; r < D; ++r) for(size_t c = 0; c < r; ++c) A[r * D + c] = A[c * D + r];
	ENSURE(symmetric(a), "symmetry");
	size_t i = vc::pick(D, "pickrow"), j = vc::pick(D - 1, "pickcolumn"); if(j >= i) ++j;
	A[i * D + j] += 1; ENSURE(!symmetric(a), "symmetry, one entry differs");
	identity(a); bool ok = true; auto k = identity<D, double>();
	for(size_t r = 0; r < D; ++r) for(size_t c = 0; c < D; ++c) ok &= A[r * D + c] == (r == c) && raw<double>(k)[r * D + c] == (r == c);
	ENSURE(ok, "identity");
	A[i * D + i] = 5; ENSURE(multiplyDiagonal(a) == 5, "diagonal product");
}
}
HARNESS(entries_rows) { entries<300, 2>(); }
HARNESS(entries_columns) { entries<2, 300>(); }
HARNESS(square_270) { square<270>(); }
