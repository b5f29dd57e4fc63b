// C11, bounded: random longer texts, for counterexamples on the real code
// vc-mode: native
// vc-noenum: texts of up to three code points are decided by C11.cpp
// vc-runs: 20000
#include "vc.hpp"
#include <nytl/utf.hpp>
#include <vector>
#include <cstring>

HARNESS(long_texts) {
	using namespace nytl;
	static const std::size_t limit[] = {10, 100, 600, 66000};
	std::size_t N = vc::pick(limit[vc::pick(20) ? vc::pick(3) : 3]);
	std::uint64_t x = vc::pick(1ull << 40);        // the text is made from a few numbers only, so that it can be replayed
	auto style = vc::pick(5);
	std::string s; std::vector<std::size_t> at {0};
	for(std::size_t i = 0; i < N; ++i) {
		x = x * 6364136223846793005ull + 1442695040888963407ull;
		std::uint32_t c = std::uint32_t(x >> 33) % (0x110000 - 0x800);
		if(style == 1) c %= 0x80; else if(style == 2) c >>= (x >> 20) % 20; else if(style == 3) c = 0x10000 + c % 0x100000 - 0x800;
		if(c >= 0xD800) c += 0x800;
		if(c < 0x80) s += char(c);
		else if(c < 0x800) { s += char(0xC0 | (c >> 6)); s += char(0x80 | (c & 63)); }
		else if(c < 0x10000) { s += char(0xE0 | (c >> 12)); s += char(0x80 | ((c >> 6) & 63)); s += char(0x80 | (c & 63)); }
		else { s += char(0xF0 | (c >> 18)); s += char(0x80 | ((c >> 12) & 63)); s += char(0x80 | ((c >> 6) & 63)); s += char(0x80 | (c & 63)); }
		at.push_back(s.size());
	}
	char* exact = new char[s.size()];                  // no byte after it may be read
	std::memcpy(exact, s.data(), s.size());
	std::string_view v(exact, s.size());
	ENSURE(charCount(v) == N, "the number of code points");
	for(int k = 0; k < 4; ++k) {
		std::size_t i = k == 0 ? 0 : k == 1 ? (N ? N - 1 : 0) : vc::pick(N + 3);
		std::size_t len = i < N ? at[i + 1] - at[i] : 0;
		std::uint8_t z1 = 77, z2 = 77;
		try {
			auto a = nth(v, i);
			ENSURE(i < N, "an index not below the count throws");
			for(std::size_t j = 0; j < 5; ++j) ENSURE(a[j] == (j < len ? s[at[i] + j] : '\0'), "the bytes of the code point, zero terminated");
		} catch(std::out_of_range&) { ENSURE(i >= N, "throws for no index below the count"); }
		try {
			auto& a = nth(v, i, z1);
			ENSURE(i < N && &a == exact + at[i] && z1 == len, "a reference to the first byte and the length");
		} catch(std::out_of_range&) { ENSURE(i >= N, "throws for no index below the count"); }
		try {
			auto& a = nth(s, i, z2);
			ENSURE(i < N && &a == &s[0] + at[i] && z2 == len, "a reference to the first byte and the length");
		} catch(std::out_of_range&) { ENSURE(i >= N, "throws for no index below the count"); }
	}
	delete[] exact;
}
