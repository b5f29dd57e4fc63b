// C11: the functions for strings of any length. The loops are verified with an inductive invariant:
// after `count` steps the iterator is at the boundary B(count) of code point number `count`.
// B is a ghost: the boundaries of the code points of a valid string; what is used of it are instances of its definition:
//   B(0) = 0,  B(k) < size exactly for k < N,  for k < N the bytes from B(k) on form one encoded code point of
//   length(s[B(k)]) bytes and B(k + 1) = B(k) + length(s[B(k)]) <= size.
// vc-unroll: 12
// vc-internal: states inside of the loops
// vc-loop: ^@_ZN4nytl9charCount#0 -> atBoundary(it, count)
// vc-loop: ^@_ZN4nytl3nth#0 -> atBoundary(it, count)
#include "vc.hpp"
#include <new>
#include <nytl/utf.hpp>
using std::size_t;

namespace {
char* s;              // the string
size_t n;             // its size in bytes
size_t N;             // the number of its code points
size_t index;         // looked up code point
size_t target;        // B(index), if index < N
size_t k, b, l;       // the step at hand: k, B(k), length of code point k

unsigned length(unsigned char c) { return c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4; }
bool lead(unsigned char c) { return c < 0x80 | (c >= 0xC2 & c <= 0xF4); }
bool cont(char c) { return ((unsigned char) c & 0xC0) == 0x80; }

/// the instances of the definition of B for k
void define() {
	REQUIRE((b < n) == (k < N));
	REQUIRE((k == 0) == (b == 0) & b <= n & k <= b);
	if(index < N) REQUIRE((k == index) == (b == target) & (k < index) == (b < target));
	l = 0;
	if(k < N) {
		REQUIRE(lead(s[b]));
		l = length(s[b]);
		REQUIRE(b + l <= n);
		for(unsigned i = 1; i < l; ++i) REQUIRE(cont(s[b + i]));
	}
}

struct It { char* p; };
}

extern "C" void atBoundary(int phase, char** it, size_t* count) {
	if(phase == 0) {
		ENSURE(*it == s && *count == 0, "invariant at the entry: at the first boundary");
		k = vc::any<std::uint64_t>("k");
		b = vc::any<std::uint64_t>("B(k)");
		REQUIRE(k <= N & b <= n);
		REQUIRE(index >= N | k <= index);    // part of the invariant: the code point has not been passed
		define();
		*it = s + b;
		*count = k;
		return;
	}
	ENSURE(*it == s + b + l, "invariant: at the next boundary");
	ENSURE(*count == k + 1 && k < N, "invariant: one more code point counted");
	ENSURE(index >= N || index >= k + 1, "invariant: the looked up code point has not been passed");
}

namespace {
void setup() {
	n = vc::any<std::uint64_t>("size");
	N = vc::any<std::uint64_t>("code points");
	REQUIRE(n < (1ull << 40) & N <= n & (N == 0) == (n == 0));
	s = (char*) vc_bytes_heap("s", n);
	index = ~0ull;
}
void lookup() {
	setup();
	index = vc::any<std::uint64_t>("index");
	target = vc::any<std::uint64_t>("B(index)");
	if(index < N) REQUIRE(target < n);
}
}

HARNESS(count) {
	setup();
	index = N;      // nothing is looked up
	ENSURE(nytl::charCount({s, n}) == N, "the number of code points");
}
HARNESS(array) {
	lookup();
	try {
		auto a = nytl::nth({s, n}, index);
		ENSURE(index < N, "an index not below the count throws");
		unsigned len = length(s[target]);
		for(unsigned i = 0; i < 5; ++i) ENSURE(a[i] == (i < len ? s[target + i] : '\0'), "the bytes of the code point, zero terminated");
	} catch(std::out_of_range&) { ENSURE(index >= N, "throws for no index below the count"); }
}
HARNESS(view_ref) {
	lookup();
	std::uint8_t size = vc::any<std::uint8_t>("garbage");
	try {
		const char& c = nytl::nth(std::string_view{s, n}, index, size);
		ENSURE(index < N, "an index not below the count throws");
		ENSURE(&c == s + target && size == length(s[target]), "a reference to the first byte and the length");
	} catch(std::out_of_range&) { ENSURE(index >= N, "throws for no index below the count"); }
}
namespace {
void stringRef(std::string& str) {
	s = &str[0];
	std::uint8_t size = vc::any<std::uint8_t>("garbage");
	try {
		char& c = nytl::nth(str, index, size);
		ENSURE(index < N, "an index not below the count throws");
		ENSURE(&c == s + target && size == length(s[target]), "a reference to the first byte and the length");
		ENSURE(str.size() == n && &str[0] == s, "the string is kept");
	} catch(std::out_of_range&) { ENSURE(index >= N, "throws for no index below the count"); }
}
/// the representation of a std::string (libstdc++), wherever its characters are
struct Rep { char* data; size_t size; char local[16]; };
static_assert(sizeof(Rep) == sizeof(std::string));
}
HARNESS(string_ref) {
	lookup();
	alignas(std::string) char mem[sizeof(Rep)];
	new (mem) Rep {s, n, {}};
	stringRef(*reinterpret_cast<std::string*>(mem));
}
HARNESS(string_constructed_thorough) {
	lookup();
	alignas(std::string) char mem[sizeof(std::string)];
	stringRef(*new (mem) std::string(s, n));
}
