// C13: span comparisons for any number of elements, the loops of std::equal and std::lexicographical_compare included.
// D is the ghost index of the first difference: all elements before it are equal.
// vc-unroll: 12
// vc-internal: states inside of the loops
// vc-norefute: a different use of the algorithms is not a violation, C13.cpp decides it
// vc-loop: ^@_ZNSt7__equalILb0EE5equalI -> sameSoFar(__first1, __first2)
// vc-loop: ^@_ZSt30__lexicographical_compare_implI -> sameSoFar(__first1, __first2)
#include "vc.hpp"
#include <nytl/span.hpp>
using namespace nytl;
using std::size_t;

namespace {
struct E { std::int32_t v; };
bool operator==(const E& a, const E& b) { return a.v == b.v; }
bool operator<(const E& a, const E& b) { return a.v < b.v; }
const E *a, *b; size_t n, m, D;
}
extern "C" void sameSoFar(int phase, const E** f, const E** g) {
	static size_t k; static bool swapped;
	if(phase == 0) {
		swapped = *f != a || *g != b;
		ENSURE(!swapped || (*f == b && *g == a), "invariant at the entry: from the first elements on");
		k = vc::any<std::uint64_t>("k");
		REQUIRE(k <= D);
		if(k < D) REQUIRE(a[k].v == b[k].v);     // instance of the definition of D
		*f = (swapped ? b : a) + k; *g = (swapped ? a : b) + k;
	} else {
		ENSURE(*f == (swapped ? b : a) + k + 1 && *g == (swapped ? a : b) + k + 1, "invariant: goes on with the next elements");
		ENSURE(k < D, "invariant: no difference so far");
	}
}
namespace {
template<typename Op> bool compare(Op op) { return op(span<const E>(a, n), span<const E>(b, m)); }
void setup() {
	n = vc::any<std::uint64_t>("n"); m = vc::any<std::uint64_t>("m");
	REQUIRE(n < (1ull << 40) && m < (1ull << 40));
	a = reinterpret_cast<const E*>(vc_bytes("a", n * sizeof(E)));
	b = reinterpret_cast<const E*>(vc_bytes("b", m * sizeof(E)));
	D = vc::any<std::uint64_t>("D");
	size_t least = vc_split(n < m) ? n : m;
	REQUIRE(D <= least);
	if(vc_split(D < least)) REQUIRE(a[D].v != b[D].v);
}
bool equal() { return n == m && D == n; }
bool less() { return D < n && D < m ? a[D].v < b[D].v : n < m; }
bool more() { return D < n && D < m ? b[D].v < a[D].v : m < n; }
}
HARNESS(any_equal) { setup(); ENSURE(compare([](auto x, auto y) { return x == y; }) == equal(), "equal: same number and same elements"); }
HARNESS(any_different) { setup(); ENSURE(compare([](auto x, auto y) { return x != y; }) == !equal(), "different: not equal"); }
HARNESS(any_less) { setup(); ENSURE(compare([](auto x, auto y) { return x < y; }) == less(), "less: the first difference decides, or the length"); }
HARNESS(any_more) { setup(); ENSURE(compare([](auto x, auto y) { return x > y; }) == more(), "greater: the first difference decides, or the length"); }
HARNESS(any_lessEqual) { setup(); ENSURE(compare([](auto x, auto y) { return x <= y; }) == !more(), "less or equal: not greater"); }
HARNESS(any_moreEqual) { setup(); ENSURE(compare([](auto x, auto y) { return x >= y; }) == !less(), "greater or equal: not less"); }
