// C06: the contract of std::vector<int>::push_back that the proofs of call() use, verified on the library's code for
// vectors of any size and capacity: one element more, the given one, and all others as before.
// vc-internal: representation of the vector
#include "vc.hpp"
#include <new>
#include <vector>

namespace {
using std::size_t;
struct Rep { int *start, *finish, *end; };
void append(bool full) {
	std::vector<int> v;
	auto& r = reinterpret_cast<Rep&>(v);
	size_t n = vc::any<std::uint64_t>("n"), cap = vc::any<std::uint64_t>("cap"), i = vc::any<std::uint64_t>("i");
	REQUIRE((n < (1ull << 40)) & (n <= cap) & (cap < (1ull << 40)) & (i < cap) & (cap > 0));
	REQUIRE(full == (n == cap));
	auto p = reinterpret_cast<int*>(vc_bytes_heap("p", cap * sizeof(int)));
	r = {p, p + n, p + cap};
	bool there = vc_split(i < n);
	int old = there ? p[i] : 0, x = vc::any<std::int32_t>("x");
	v.push_back(std::move(x));
	ENSURE(v.size() == n + 1, "one element more");
	ENSURE(v.data()[n] == x, "the given one");
	ENSURE(!there || v.data()[i] == old, "all others as before");
	ENSURE(v.capacity() >= v.size(), "in its storage");
}
}
HARNESS(any_push_back_space) { append(false); }
HARNESS(any_push_back_full) { append(true); }
HARNESS(push_back_empty) {
	std::vector<int> v;
	int x = vc::any<std::int32_t>("x");
	v.push_back(std::move(x));
	ENSURE(v.size() == 1 && v[0] == x, "one element");
}
