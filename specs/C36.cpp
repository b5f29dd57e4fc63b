// C36: all texts of up to four characters with terminators anywhere, for counterexamples on the real code;
// texts of any length: C36_loops
#include "vc.hpp"
#include <nytl/stringParam.hpp>
using std::size_t;

namespace {
template<typename C> C character(const char* n) {
	if constexpr(sizeof(C) == 1) return (C) vc::any<std::uint8_t>(n);
	else if constexpr(sizeof(C) == 2) return (C) vc::any<std::uint16_t>(n);
	else return (C) vc::any<std::uint32_t>(n);
}
template<typename C> struct Text {
	size_t n = vc::pick(5, "pickn"), T; C s[5];
	Text() {
		for(size_t i = 0; i < n; ++i) s[i] = vc::pick(2, "pickz") ? C(0) : character<C>("c");
		s[n] = 0;
		for(T = 0; s[T]; ++T) {}
	}
	void check(const nytl::BasicStringParam<C>& p, const C* mem) {
		ENSURE(p.c_str() == mem && p.data() == mem, "the C string is the same memory");
		ENSURE(p.size() == T && p.length() == T && p.empty() == (T == 0), "the characters up to the first terminator");
		for(size_t i = 0; i <= T; ++i) ENSURE(p.c_str()[i] == s[i], "the same characters, followed by a terminator");
	}
};
template<typename C> void pointer() {
	Text<C> t;
	nytl::BasicStringParam<C> p(t.s);
	t.check(p, t.s);
	auto copy = p; t.check(copy, t.s);
	nytl::BasicStringParam<C> assigned; assigned = p; t.check(assigned, t.s);
}
template<typename C> void fromString() {
	Text<C> t;
	std::basic_string<C> str(t.s, t.n);
	nytl::BasicStringParam<C> p(str);
	t.check(p, str.data());
	ENSURE(str.size() == t.n, "the string is kept");
}
}
HARNESS(pointer8) { pointer<char>(); }
HARNESS(pointer16) { pointer<char16_t>(); }
HARNESS(pointer32) { pointer<char32_t>(); }
HARNESS(string8) { fromString<char>(); }
HARNESS(string16) { fromString<char16_t>(); }
HARNESS(string32) { fromString<char32_t>(); }
