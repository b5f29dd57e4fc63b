// C24: larger matrices
// vc-mode: native
// vc-noenum: 1
#include "large.hpp"
using namespace nytl; using vc::raw;
namespace {
/// whether v is a combination of the rows of E, which is in echelon form
template<size_t R, size_t C> bool inSpan(const double* E, const double* v) {
	double w[C]; for(size_t c = 0; c < C; ++c) w[c] = v[c];
	for(size_t r = 0; r < R; ++r) {
		size_t c = 0; while(c < C && E[r * C + c] == 0) ++c;
		if(c == C) break;
		double f = w[c];
		for(size_t k = 0; k < C; ++k) w[k] -= f * E[r * C + k];
	}
	for(size_t c = 0; c < C; ++c) if(w[c] != 0) return false;
	return true;
}
template<size_t R, size_t C> size_t echelon(const double* E, bool reduced) {
	size_t last = 0, rank = 0; bool zero = false;
	for(size_t r = 0; r < R; ++r) {
		size_t c = 0;
		while(c < C && E[r * C + c] == 0) ++c;
		if(c == C) { zero = true; continue; }
		ENSURE(!zero, "zero rows come last");
		ENSURE(E[r * C + c] == 1, "leading entries are one");
		ENSURE(!rank || c > last, "leading entries move strictly right");
		for(size_t i = r + 1; i < R; ++i) ENSURE(E[i * C + c] == 0, "zeros below a leading entry");
		if(reduced) for(size_t i = 0; i < r; ++i) ENSURE(E[i * C + c] == 0, "zeros above a leading entry");
		last = c; ++rank;
	}
	return rank;
}
/// the rank by elimination on the columns, without the code under test
template<size_t R, size_t C> size_t rank(const double* A) {
	double m[R * C]; for(size_t i = 0; i < R * C; ++i) m[i] = A[i];
	size_t k = 0; bool used[R] {};
	for(size_t c = 0; c < C; ++c) {
		size_t r = 0; while(r < R && (used[r] || m[r * C + c] == 0)) ++r;
		if(r == R) continue;
		used[r] = true; ++k;
		for(size_t i = 0; i < R; ++i) if(!used[i]) {
			double f = m[i * C + c] / m[r * C + c];
			for(size_t j = 0; j < C; ++j) m[i * C + j] -= f * m[r * C + j];
		}
	}
	return k;
}
template<size_t R, size_t C> void form() {
	Mat<R, C, double> a;
	large::any(a, R, C);
	const auto in = a;
	bool reduced = vc::pick(2, "pickreduced");
	large::begin();
	if(reduced) nytl::reducedRowEcholon(a); else nytl::rowEcholon(a);
	REQUIRE(large::exact());
	auto E = raw<double>(a); auto A = raw<double>(in);
	auto n = echelon<R, C>(E, reduced);
	for(size_t r = 0; r < R; ++r) { bool b = inSpan<R, C>(E, A + r * C); REQUIRE(large::exact()); ENSURE(b, "every row is a combination of the rows of the result"); }
	auto k = rank<R, C>(A);
	REQUIRE(large::exact());
	ENSURE(n == k, "the row space does not grow");
	vc_nontrivial();
}
}
HARNESS(large_form_44) { form<4, 4>(); }
HARNESS(large_form_55) { form<5, 5>(); }
HARNESS(large_form_46) { form<4, 6>(); }
HARNESS(large_form_64) { form<6, 4>(); }
HARNESS(large_form_66) { form<6, 6>(); }
