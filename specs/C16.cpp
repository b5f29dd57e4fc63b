// C16: integer mappings and pairing
// vc-overflow: 1
#include "vc.hpp"
#include <nytl/math.hpp>
using namespace nytl;

HARNESS(map) {
	auto x = vc::any<std::int32_t>("x");
	std::int64_t w = x;
	auto want = (std::uint64_t)(w >= 0 ? 2 * w : -2 * w - 1);
	ENSURE(mapUnsigned(x) == want, "mapUnsigned follows 0,-1,1,-2,2,...");
}

HARNESS(unmap) {
	auto u = vc::any<std::uint32_t>("u");
	std::int64_t w = u;
	auto want = (w % 2) ? -(w + 1) / 2 : w / 2;
	ENSURE(unmapUnsigned(u) == want, "unmapUnsigned reverses the sequence");
}

HARNESS(inverse) {
	auto x = vc::any<std::int32_t>("x");
	auto u = vc::any<std::uint32_t>("u");
	ENSURE(unmapUnsigned(mapUnsigned(x)) == x, "unmapUnsigned inverts mapUnsigned");
	ENSURE(mapUnsigned(unmapUnsigned(u)) == u, "mapUnsigned reaches every number");
}

HARNESS(mapInjective) {
	auto x = vc::any<std::int32_t>("x");
	auto y = vc::any<std::int32_t>("y");
	REQUIRE(x != y);
	ENSURE(mapUnsigned(x) != mapUnsigned(y), "mapUnsigned never collides");
}

// Every pair with a representable Cantor number has x + y = 2m + b < 2^17, b in {0, 1}: larger sums already
// have s(s+1)/2 >= 2^33.
HARNESS(pairing) {
	auto b = (std::uint32_t) vc::pick(2, "pick b");
	auto m = vc::any<std::uint32_t>("m");
	auto x = vc::any<std::uint32_t>("x");
	if(!vc::replaying()) { m >>= 16; x %= (2 * m + b + 1); }
	REQUIRE(m < 0x10000 && x <= 2 * m + b);
	std::uint32_t y = 2 * m + b - x;
	std::uint64_t s = 2 * (std::uint64_t) m + b;
	std::uint64_t t = b ? s * ((std::uint64_t) m + 1) : m * (s + 1);
	ENSURE(2 * t == s * (s + 1), "lemma: t is the triangular number of the sum");
	std::uint64_t c = t + (s - x);
	REQUIRE(c <= 0xffffffffull);
	ENSURE((x + y) / 2 == m && (x + y) % 2 == b, "lemma: half and parity of the sum");
	ENSURE(pair(x, y) == (std::uint32_t) c, "pair is the Cantor number");
}

// mathematical lemma behind "distinct pairs give distinct results": with sum s and second number y <= s,
// c(s, y) = s(s+1)/2 + y is strictly increasing along (s, y) in lexicographic order
HARNESS(pairingInjective) {
	double s = vc::any<double>("s"), t = vc::any<double>("t"), y = vc::any<double>("y"), z = vc::any<double>("z");
	REQUIRE(0 <= y && y <= s && 0 <= z && s + 1 <= t);
	ENSURE(s * (s + 1) / 2 + y < t * (t + 1) / 2 + z, "Cantor numbers of different diagonals differ");
}
