// C36: strings of any length. T is the ghost index of the first terminator: no character before it is one.
// vc-unroll: 24
// vc-internal: states inside of the loops
// vc-loop: ^@_ZNSt11char_traitsIDsE6lengthE -> noTerminator16(__i)
// vc-loop: ^@_ZNSt11char_traitsIDiE6lengthE -> noTerminator32(__i)
// vc-loop: ^@_ZN9__gnu_cxx11char_traitsI.E6lengthE -> noTerminatorG(__i)
// vc-contract: ^strlen$ -> c_strlen -- assumed: the C standard
// strlen: library function, its contract is assumed: the index of the first terminator of the text at s
#include "vc.hpp"
#include <new>
#include <nytl/stringParam.hpp>
using std::size_t;

namespace {
size_t n, T;      // number of characters in memory, first terminator
const void* s;
template<typename C> const C* text() { return static_cast<const C*>(s); }

template<typename C> void setup() {
	n = vc::any<std::uint64_t>("n");
	T = vc::any<std::uint64_t>("T");
	REQUIRE(n < (1ull << 40) & T < n);
	s = vc_bytes_heap("s", n * sizeof(C));
	REQUIRE(text<C>()[T] == 0);
}
template<typename C> void invariant(int phase, size_t* i) {
	static size_t k;
	if(phase == 0) {
		ENSURE(*i == 0, "invariant at the entry");
		k = vc::any<std::uint64_t>("k");
		REQUIRE(k <= T);
		if(k < T) REQUIRE(text<C>()[k] != 0);     // instance of the definition of T
		*i = k;
	} else ENSURE(*i == k + 1 && *i <= T, "invariant: no terminator so far");
}
}
extern "C" {
size_t c_strlen(const char* p) { ENSURE(p == s, "strlen is called with the text"); return T; }
void noTerminator16(int phase, size_t* i) { invariant<char16_t>(phase, i); }
void noTerminator32(int phase, size_t* i) { invariant<char32_t>(phase, i); }
void noTerminatorG(int phase, size_t* i) { invariant<char>(phase, i); }
}

namespace {
template<typename C> void check(const nytl::BasicStringParam<C>& p) {
	ENSURE(p.c_str() == s && p.data() == s, "the C string is the same memory");
	ENSURE(p.size() == T && p.length() == T && p.empty() == (T == 0), "the characters up to the first terminator");
	ENSURE(p.c_str()[p.size()] == 0, "followed by a terminator");
	std::basic_string_view<C> v = p;
	ENSURE(v.data() == s && v.size() == T, "as a view");
}
template<typename C> void pointer() {
	setup<C>();
	nytl::BasicStringParam<C> p(text<C>());
	check(p);
	auto copy = p; check(copy);
	nytl::BasicStringParam<C> assigned; assigned = p; check(assigned);
}
/// the representation of a standard string (libstdc++), wherever its characters are
template<typename C> struct Rep { const C* data; size_t size; C local[16 / sizeof(C)]; };
template<typename C> void fromString() {
	static_assert(sizeof(Rep<C>) == sizeof(std::basic_string<C>));
	setup<C>();
	REQUIRE(text<C>()[n - 1] == 0);      // the string has n - 1 characters and may contain terminators
	alignas(std::string) char mem[sizeof(Rep<C>)];
	new (mem) Rep<C> {text<C>(), n - 1, {}};
	auto& str = *reinterpret_cast<std::basic_string<C>*>(mem);
	nytl::BasicStringParam<C> p(str);
	check(p);
	ENSURE(str.data() == s && str.size() == n - 1, "the string is kept");
}
}
HARNESS(pointer8) { pointer<char>(); }
HARNESS(pointer16) { pointer<char16_t>(); }
HARNESS(pointer32) { pointer<char32_t>(); }
HARNESS(string8) { fromString<char>(); }
HARNESS(string16) { fromString<char16_t>(); }
HARNESS(string32) { fromString<char32_t>(); }
