// C25: larger matrices
// vc-mode: native
// vc-noenum: 1
#include "large.hpp"
using namespace nytl; using vc::raw;
namespace {
template<size_t D> void lu() {
	Mat<D, D, double> in;
	if(vc::pick(3, "pickkind") == 0) large::permuted<D>(in); else large::any(in, D, D);
	const auto a = in;
	large::begin();
	auto d = nytl::luDecomp(a);
	REQUIRE(large::exact());
	auto P = raw<bool>(d.perm); auto L = raw<double>(d.lower), U = raw<double>(d.upper); auto A = raw<double>(in);
	size_t perm[D];
	for(size_t i = 0; i < D; ++i) {
		int n = 0, m = 0; perm[i] = 0;
		for(size_t j = 0; j < D; ++j) { if(P[i * D + j]) { ++n; perm[i] = j; } if(P[j * D + i]) ++m; }
		ENSURE((n == 1) & (m == 1), "P is a permutation");
	}
	int s = 1;
	for(size_t i = 0; i < D; ++i) for(size_t j = i + 1; j < D; ++j) if(perm[i] > perm[j]) s = -s;
	ENSURE((double) d.sign == s, "sign of the permutation");
	for(size_t i = 0; i < D; ++i) {
		ENSURE(L[i * D + i] == 1, "L has ones on its diagonal");
		for(size_t j = 0; j < D; ++j) {
			if(j > i) ENSURE(L[i * D + j] == 0, "L is lower triangular");
			if(j < i) ENSURE(U[i * D + j] == 0, "U is upper triangular");
			double x = 0;
			for(size_t k = 0; k < D; ++k) x += L[i * D + k] * U[k * D + j];
			ENSURE(x == A[perm[i] * D + j], "PA = LU");
		}
	}
	vc_nontrivial();
}
}
HARNESS(large_lu_5) { lu<5>(); }
HARNESS(large_lu_6) { lu<6>(); }
HARNESS(large_lu_8) { lu<8>(); }
