// C19: angles of parallel vectors, where rounding pushes the cosine out of range: whatever dot and length compute,
// acos is only called within its domain. (Their exact values are the subject of C19.cpp.)
// vc-contract: ^_ZN4nytl3dotILm.EddE -> anyDot -- weaker than verified in C19: any number
// vc-contract: ^_ZN4nytl6lengthILm.EdE -> anyLength -- weaker than verified in C19: any positive number
// vc-contract: ^_ZN4nytl6lengthILm.EfE -> anyFLength -- weaker than verified in C19: any positive number
// vc-contract: ^_ZN4nytl3dotILm.EffE -> anyFDot -- weaker than verified in C19: any number
// vc-norefute: other ways to compute the angle may need more about dot and length; the compiled code is run then
#include "vc.hpp"
#include <nytl/vecOps.hpp>
using namespace nytl;
using std::size_t;

extern "C" double anyDot(const void*, const void*) { return vc::any<double>("dot"); }
extern "C" float anyFDot(const void*, const void*) { return vc::any<float>("dot"); }
extern "C" double anyLength(const void*) { auto l = vc::any<double>("length"); REQUIRE(l > 0); return l; }
extern "C" float anyFLength(const void*) { auto l = vc::any<float>("length"); REQUIRE(l > 0); return l; }
namespace {
constexpr double PI_UP = 3.1415928;
template<size_t D, typename T> void parallel(bool normed) {
	Vec<D, T> a, b;
	vc::fill<T>(a, D, "a");
	double aa = 0;
	for(size_t i = 0; i < D; ++i) aa += (double) a[i] * a[i];
	REQUIRE(aa > 0.01);
	T s = vc::any<T>("s");
	REQUIRE((s > 0.01) | (s < -0.01));
	if(normed) { auto l = (T) nytl::length(a); for(size_t i = 0; i < D; ++i) a[i] /= l; s = s > 0 ? 1 : -1; }
	for(size_t i = 0; i < D; ++i) b[i] = s * a[i];
	double x = normed ? angleNormed(a, b) : angle(a, b);
	ENSURE((x >= 0) & (x <= PI_UP), "the angle is a number within [0, pi]");
}
}
HARNESS(parallel_2) { parallel<2, double>(false); }
HARNESS(parallel_3) { parallel<3, double>(false); }
HARNESS(parallel_4) { parallel<4, double>(false); }
HARNESS(parallelNormed_2) { parallel<2, double>(true); }
HARNESS(parallelNormed_3) { parallel<3, double>(true); }
HARNESS(parallel_f3) { parallel<3, float>(false); }
HARNESS(parallelNormed_f3) { parallel<3, float>(true); }
