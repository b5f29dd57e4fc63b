// shared by C33-C35: points through raw matrix entries
#pragma once
#include "quat.hpp"
#include <nytl/transform.hpp>
namespace tr {
using namespace nytl;
using vc::raw; using vc::eq;
template<typename T> void coarse() { if(std::is_same_v<T, float>) vc::any<float>("precision"); }
/// M (v, 1) for a D x D matrix and a point with D - 1 components; out has D entries
template<size_t D, typename T> void point(const SquareMat<D, T>& m, const double* v, double* o) {
	const T* M = raw<T>(m);
	for(size_t i = 0; i < D; ++i) {
		double s = M[i * D + D - 1];
		for(size_t k = 0; k + 1 < D; ++k) s += (double) M[i * D + k] * v[k];
		o[i] = s;
	}
}
/// M v for a D x D matrix
template<size_t D, typename T> void image(const SquareMat<D, T>& m, const double* v, double* o) {
	const T* M = raw<T>(m);
	for(size_t i = 0; i < D; ++i) {
		double s = 0;
		for(size_t k = 0; k < D; ++k) s += (double) M[i * D + k] * v[k];
		o[i] = s;
	}
}
template<size_t D, typename T> void anyMat(SquareMat<D, T>& m) { vc::fill<T>(m, D * D, "m"); }
/// m keeps the identity outside of the upper left n x n part
template<size_t D, typename T> void embedded(const SquareMat<D, T>& m, size_t n) {
	const T* M = raw<T>(m);
	for(size_t i = 0; i < D; ++i) for(size_t k = 0; k < D; ++k) if(i >= n || k >= n)
		ENSURE(eq(M[i * D + k], i == k), "identity outside the transformed components");
}
/// native inputs only: away from zero
inline bool notSmall(double x) { return vc::replaying() || x > 0.1 || x < -0.1; }
}
