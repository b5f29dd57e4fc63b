// C22: hundreds of rows and columns, natively
// vc-mode: native
// vc-noenum: 1
// vc-runs: 100
#include "vc.hpp"
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>
#include <memory>
using namespace nytl; using vc::raw;
namespace {
template<typename T> void fill(T* a, size_t n) { auto m = vc::pick(90, "pickfactor") + 2, s = vc::pick(90, "pickoffset"); for(size_t i = 0; i < n; ++i) a[i] = T((i * m + s) % 97) - 48; }
template<size_t R, size_t M, size_t C> void product() {
	auto pa = std::make_unique<Mat<R, M, int>>(); auto pb = std::make_unique<Mat<M, C, int>>();
	auto A = raw<int>(*pa), B = raw<int>(*pb); fill(A, R * M); fill(B, M * C);
	auto p = *pa * *pb; bool ok = true;
	for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c) { int s = 0; for(size_t i = 0; i < M; ++i) s += A[r * M + i] * B[i * C + c]; ok &= raw<int>(p)[r * C + c] == s; }
	ENSURE(ok, "matrix product");
	Vec<M, int> v; fill(raw<int>(v), M);
	auto x = *pa * v;
	for(size_t r = 0; r < R; ++r) { int s = 0; for(size_t i = 0; i < M; ++i) s += A[r * M + i] * raw<int>(v)[i]; ok &= raw<int>(x)[r] == s; }
	ENSURE(ok, "matrix vector product");
}
template<size_t R, size_t C> void entries() {
	Mat<R, C, int> a, b; auto A = raw<int>(a), B = raw<int>(b); fill(A, R * C); fill(B, R * C);
	auto is = [&](const auto& v, auto f, const char* l) { bool ok = true; for(size_t i = 0; i < R * C; ++i) ok &= raw<int>(v)[i] == f(A[i], B[i]); ENSURE(ok, l); };
	is(a + b, [](int x, int y) { return x + y; }, "sum");
	is(a - b, [](int x, int y) { return x - y; }, "difference");
	is(-a, [](int x, int) { return -x; }, "negation");
	is(3 * a, [](int x, int) { return 3 * x; }, "scaling");
	auto c = a; c += b; is(c, [](int x, int y) { return x + y; }, "+=");
	c = a; c -= b; is(c, [](int x, int y) { return x - y; }, "-=");
	c = a; c *= 3; is(c, [](int x, int) { return 3 * x; }, "*= scalar");
	c = a; ENSURE(c == a && !(c != a), "equal matrices");
	raw<int>(c)[vc::pick(R * C, "pickentry")] += 1; ENSURE(!(c == a) && c != a && !(a == c), "matrices that differ in one entry");
}
template<size_t D> void square() {
	Mat<D, D, int> a, b; auto A = raw<int>(a), B = raw<int>(b); fill(A, D * D); fill(B, D * D);
	auto ab = a * b, aa = a * a; auto c = a; c *= b; auto s = a; s *= s; bool ok = true;
	for(size_t i = 0; i < D * D; ++i) ok &= raw<int>(c)[i] == raw<int>(ab)[i] && raw<int>(s)[i] == raw<int>(aa)[i];
	ENSURE(ok, "product assignment");
}
}
HARNESS(product_inner) { product<3, 300, 2>(); }
HARNESS(product_rows) { product<300, 3, 2>(); }
HARNESS(product_columns) { product<2, 3, 300>(); }
HARNESS(entries_rows) { entries<300, 2>(); }
HARNESS(entries_columns) { entries<2, 300>(); }
HARNESS(square_40) { square<40>(); }
