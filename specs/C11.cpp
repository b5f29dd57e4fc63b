// C11: all valid strings of up to three code points (with every choice of lengths), all indices; for counterexamples
// on the real code. The functions are proved for strings of any length in C11_loops.
#include "vc.hpp"
#include <nytl/utf.hpp>
using std::size_t;

namespace {
struct Text {
	size_t N, n = 0, at[5] {}; char* s;
	Text() {
		N = vc::pick(4, "pickN");
		for(size_t i = 0; i < N; ++i) { at[i + 1] = at[i] + 1 + vc::pick(4, "picklen"); }
		n = at[N];
		s = (char*) vc_bytes_heap("s", n);
		for(size_t i = 0; i < N; ++i) encoded((unsigned char*) s + at[i], at[i + 1] - at[i]);
	}
	static bool cont(unsigned char c) { return (c & 0xC0) == 0x80; }
	/// the len bytes encode a unicode scalar value
	static void encoded(unsigned char* p, size_t len) {
#ifdef VC_NATIVE
		if(!vc::replaying()) {      // make them valid
			for(size_t i = 1; i < len; ++i) p[i] = 0x80 | (p[i] & 0x3F);
			if(len == 1) p[0] &= 0x7F;
			if(len == 2) p[0] = 0xC2 + p[0] % 30;
			if(len == 3) { p[0] = 0xE0 + p[0] % 16; if(p[0] == 0xE0) p[1] |= 0x20; if(p[0] == 0xED) p[1] &= 0x9F; }
			if(len == 4) { p[0] = 0xF0 + p[0] % 5; if(p[0] == 0xF0) p[1] |= 0x10; if(p[0] == 0xF4) p[1] &= 0x8F; }
		}
#endif
		if(len == 1) REQUIRE(p[0] < 0x80);
		if(len == 2) REQUIRE(p[0] >= 0xC2 & p[0] <= 0xDF);
		if(len == 3) REQUIRE(p[0] >= 0xE0 & p[0] <= 0xEF & (p[0] != 0xE0 | p[1] >= 0xA0) & (p[0] != 0xED | p[1] <= 0x9F));
		if(len == 4) REQUIRE(p[0] >= 0xF0 & p[0] <= 0xF4 & (p[0] != 0xF0 | p[1] >= 0x90) & (p[0] != 0xF4 | p[1] <= 0x8F));
		for(size_t i = 1; i < len; ++i) REQUIRE(cont(p[i]));
	}
	size_t index() {
		size_t i = vc::any<std::uint64_t>("index");
#ifdef VC_NATIVE
		if(!vc::replaying()) i %= 5;
#endif
		for(size_t k = 0; k < N; ++k) if(i == k) return k;
		return i;
	}
	size_t len(size_t i) { return at[i + 1] - at[i]; }
};
}

HARNESS(count) { Text t; ENSURE(nytl::charCount({t.s, t.n}) == t.N, "the number of code points"); }
HARNESS(array) {
	Text t; size_t i = t.index();
	try {
		auto a = nytl::nth({t.s, t.n}, i);
		ENSURE(i < t.N, "an index not below the count throws");
		if(i < t.N) for(size_t j = 0; j < 5; ++j) ENSURE(a[j] == (j < t.len(i) ? t.s[t.at[i] + j] : '\0'), "the bytes of the code point, zero terminated");
	} catch(std::out_of_range&) { ENSURE(i >= t.N, "throws for no index below the count"); }
}
HARNESS(view_ref) {
	Text t; size_t i = t.index();
	std::uint8_t size = vc::any<std::uint8_t>("garbage");
	try {
		const char& c = nytl::nth(std::string_view{t.s, t.n}, i, size);
		ENSURE(i < t.N, "an index not below the count throws");
		if(i < t.N) ENSURE(&c == t.s + t.at[i] && size == t.len(i), "a reference to the first byte and the length");
	} catch(std::out_of_range&) { ENSURE(i >= t.N, "throws for no index below the count"); }
}
HARNESS(string_ref) {
	Text t; size_t i = t.index();
	std::string str(t.s, t.n), keep = str;
	std::uint8_t size = vc::any<std::uint8_t>("garbage");
	try {
		char& c = nytl::nth(str, i, size);
		ENSURE(i < t.N, "an index not below the count throws");
		if(i < t.N) ENSURE(&c == &str[0] + t.at[i] && size == t.len(i), "a reference to the first byte and the length");
	} catch(std::out_of_range&) { ENSURE(i >= t.N, "throws for no index below the count"); }
	ENSURE(str.size() == t.n, "the string is kept");
	for(size_t j = 0; j < t.n; ++j) ENSURE(str[j] == t.s[j], "the string is kept");
}
