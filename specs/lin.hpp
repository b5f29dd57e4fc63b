// shared by C25 and C26: reference linear algebra over raw entries
#pragma once
#include "vc.hpp"
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>

namespace lin {
/// Laplace expansion along the first row
template<size_t N, typename T> T det(const T* a) {
	if constexpr(N == 1) return a[0];
	else {
		T s = 0;
		for(size_t j = 0; j < N; ++j) {
			T m[(N - 1) * (N - 1)];
			for(size_t r = 1; r < N; ++r) for(size_t c = 0, k = 0; c < N; ++c) if(c != j) m[(r - 1) * (N - 1) + k++] = a[r * N + c];
			T t = a[j] * det<N - 1, T>(m);
			if(j % 2) s -= t; else s += t;
		}
		return s;
	}
}
/// Native runs only use inputs for which rounding cannot decide whether a value is zero; always true for proofs and replays
inline bool conditioned(double det) { return vc::replaying() || det > 0.5 || det < -0.5; }

/// Native runs only use small integers: pivots are quotients of small minors then, and rounding errors stay tiny
template<typename T> inline void small(const T* v, size_t n) {
	if(vc::replaying()) return;
	for(size_t i = 0; i < n; ++i) REQUIRE(v[i] == (int) v[i] && v[i] <= 4 && v[i] >= -4);
}

/// the row of each column one, and the sign, of a permutation picked
template<size_t D> int permutation(size_t* p) {
	int sign = 1;
	for(size_t i = 0; i < D; ++i) p[i] = i;
	for(size_t i = 0; i + 1 < D; ++i) {
		size_t k = i + vc::pick(D - i, "pickperm");
		if(k != i) { size_t t = p[i]; p[i] = p[k]; p[k] = t; sign = -sign; }
	}
	return sign;
}
template<size_t D, typename T> void isInverse(const T* A, const double* I) {
	for(size_t i = 0; i < D; ++i) for(size_t j = 0; j < D; ++j) {
		double x = 0, y = 0;
		for(size_t k = 0; k < D; ++k) { x += A[i * D + k] * I[k * D + j]; y += I[i * D + k] * A[k * D + j]; }
		ENSURE(vc::eq(x, i == j), "A times the inverse is the identity");
		ENSURE(vc::eq(y, i == j), "the inverse times A is the identity");
	}
}
// arbitrary decomposition of a matrix
template<size_t D, typename T> struct Dec {
	nytl::LUDecomposition<D, T> d {};
	double A[D * D];
	Dec(bool regular = true) {
		size_t p[D]; d.sign = permutation<D>(p);
		auto P = vc::raw<bool>(d.perm); auto L = vc::raw<T>(d.lower), U = vc::raw<T>(d.upper);
		for(size_t i = 0; i < D; ++i) {
			P[i * D + p[i]] = true;
			for(size_t j = 0; j < i; ++j) L[i * D + j] = vc::any<T>("l");
			L[i * D + i] = 1;
			for(size_t j = i; j < D; ++j) U[i * D + j] = vc::any<T>("u");
			REQUIRE(vc::replaying() || U[i * D + i] > 0.4 || U[i * D + i] < -0.4);
			if(regular) REQUIRE(U[i * D + i] != 0);
		}
		for(size_t i = 0; i < D; ++i) for(size_t j = 0; j < D; ++j) {
			double x = 0;
			for(size_t k = 0; k <= i && k <= j; ++k) x += (double) L[i * D + k] * U[k * D + j];
			A[p[i] * D + j] = x;
		}
	}
};
}
