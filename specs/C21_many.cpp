// C21: hundreds of components, natively
// vc-mode: native
// vc-noenum: 1
// vc-runs: 100
#include "vc.hpp"
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
#include <nytl/mat.hpp>
#include <nytl/rect.hpp>
#include <nytl/simplex.hpp>
#include <stdexcept>
#include <vector>
using namespace nytl; using vc::raw;
namespace {
template<typename T> void fill(T* a, size_t n) { auto m = vc::pick(90, "pickfactor") + 2, s = vc::pick(90, "pickoffset"); for(size_t i = 0; i < n; ++i) a[i] = T((i * m + s) % 97 + 1); }
template<size_t D, size_t OD> void vectors() {
	Vec<D, int> a; auto A = raw<int>(a); fill(A, D);
	auto b = static_cast<Vec<OD, double>>(a); bool ok = true;
	for(size_t i = 0; i < OD; ++i) ok &= raw<double>(b)[i] == (i < D ? A[i] : 0);
	ENSURE(ok, "shared components kept, new ones zero");
	Rect<D, int> r; r.position = a; for(size_t i = 0; i < D; ++i) raw<int>(r.size)[i] = A[D - 1 - i];
	auto s = static_cast<Rect<OD, float>>(r);
	for(size_t i = 0; i < OD; ++i) ok &= raw<float>(s.position)[i] == (i < D ? A[i] : 0) && raw<float>(s.size)[i] == (i < D ? A[D - 1 - i] : 0);
	ENSURE(ok, "rectangle");
}
template<size_t R, size_t C, size_t OR, size_t OC> void matrices() {
	Mat<R, C, int> a; auto A = raw<int>(a); fill(A, R * C);
	auto b = static_cast<Mat<OR, OC, double>>(a); bool ok = true;
	for(size_t r = 0; r < OR; ++r) for(size_t c = 0; c < OC; ++c) ok &= raw<double>(b)[r * OC + c] == (r < R && c < C ? A[r * C + c] : 0);
	ENSURE(ok, "shared entries kept, new ones zero");
	auto throws = [](auto& m, size_t r, size_t c) { try { m.at(r, c); return false; } catch(const std::out_of_range&) { return true; } };
	const auto& k = a; bool at = true, out = true;
	for(size_t r = 0; r < R; ++r) for(size_t c = 0; c < C; ++c) at &= &a.at(r, c) == A + r * C + c && &k.at(r, c) == A + r * C + c;
	ENSURE(at, "at returns the addressed entry");
	for(size_t f : {size_t(1), size_t(2), size_t(3)}) out &= throws(a, R * f, 0) && throws(k, R * f, 0) && throws(a, 0, C * f) && throws(k, 0, C * f);
	for(size_t x : {size_t(1) << 8, size_t(1) << 16, size_t(1) << 32, size_t(1) << 63, ~size_t(0)}) {
		if(x >= R) out &= throws(a, x, 0) && throws(k, x, 0);
		if(x >= C) out &= throws(a, 0, x) && throws(k, 0, x);
	}
	ENSURE(out, "at throws out_of_range for every other index");
}
template<size_t D, size_t OD, size_t A> void simplices() {
	Simplex<D, int, A> a; std::vector<int> in((A + 1) * D); fill(in.data(), in.size());
	for(size_t i = 0; i <= A; ++i) for(size_t j = 0; j < D; ++j) raw<int>(a.points_[i])[j] = in[i * D + j];
	auto b = static_cast<Simplex<OD, double, A>>(a); bool ok = true;
	for(size_t i = 0; i <= A; ++i) for(size_t j = 0; j < OD; ++j) ok &= raw<double>(b.points_[i])[j] == (j < D ? in[i * D + j] : 0);
	ENSURE(ok, "simplex");
}
}
HARNESS(vectors_grow) { vectors<280, 600>(); }
HARNESS(vectors_shrink) { vectors<600, 270>(); }
HARNESS(vectors_few) { vectors<300, 4>(); }
HARNESS(matrices_grow) { matrices<260, 5, 300, 270>(); }
HARNESS(matrices_shrink) { matrices<300, 270, 258, 3>(); }
HARNESS(simplices_many) { simplices<20, 30, 15>(); simplices<30, 20, 15>(); }
