// C13: what a span reports about any number of elements (none of them is accessed)
#include "vc.hpp"
#include <nytl/span.hpp>
using namespace nytl;
namespace {
template<typename T> void sizes() {
	alignas(64) static unsigned char mem[64];
	auto p = reinterpret_cast<T*>(mem);
	auto n = vc::any<std::uint64_t>("n"), k = vc::any<std::uint64_t>("k");
	REQUIRE((n < (1ull << 62) / sizeof(T)) & (k <= n));
	span<T> s(p, n);
	const span<const T> c(s);
	ENSURE(s.data() == p && c.data() == p, "data");
	ENSURE((s.size() == n) & (c.size() == n), "size");
	ENSURE((s.size_bytes() == n * sizeof(T)) & (c.size_bytes() == n * sizeof(T)), "size in bytes");
	ENSURE((s.empty() == (n == 0)) & (c.empty() == (n == 0)), "empty exactly without elements");
	ENSURE((s.first(k).size() == k) & (s.first(k).data() == p), "first");
	ENSURE((s.subspan(0, k).size() == k) & (s.subspan(0, k).data() == p), "subspan from the beginning");
	ENSURE((as_bytes(s).size() == n * sizeof(T)) & (as_writeable_bytes(s).size() == n * sizeof(T)), "byte views");
	ENSURE((as_bytes(s).data() == (const std::byte*) mem) & (as_writeable_bytes(s).data() == (std::byte*) mem), "byte views");
}
struct Big { char c[40]; };
}
HARNESS(sizes_byte) { sizes<char>(); }
HARNESS(sizes_int) { sizes<int>(); }
HARNESS(sizes_double) { sizes<double>(); }
HARNESS(sizes_big) { sizes<Big>(); }
