// C36, bounded: random longer texts, for counterexamples on the real code
// vc-mode: native
// vc-noenum: texts of up to four characters are decided by C36.cpp
// vc-runs: 20000
#include "vc.hpp"
#include <nytl/stringParam.hpp>

namespace { template<typename C> void text() {
	static const std::size_t limit[] = {10, 100, 600, 70000};
	std::size_t n = vc::pick(limit[vc::pick(20) ? vc::pick(3) : 3]) + 1;
	std::uint64_t x = vc::pick(1ull << 40);
	std::basic_string<C> s;
	for(std::size_t i = 0; i < n; ++i) { x = x * 6364136223846793005ull + 1442695040888963407ull; C c = C(x >> 37); s += c ? c : C(1); }
	std::size_t T = n;
	if(vc::pick(2)) { T = vc::pick(n); s[T] = 0; }
	C* mem = new C[T + 1];
	for(std::size_t i = 0; i <= T; ++i) mem[i] = s.c_str()[i];
	nytl::BasicStringParam<C> p(mem), q(s);
	ENSURE(p.c_str() == mem && p.data() == mem && p.size() == T && p.c_str()[T] == 0, "the text at the pointer up to the first terminator");
	ENSURE(q.c_str() == s.c_str() && q.data() == s.data() && q.size() == T && q.c_str()[T] == 0, "the text of the string up to the first terminator");
	delete[] mem;
} }
HARNESS(text8) { text<char>(); }
HARNESS(text16) { text<char16_t>(); }
HARNESS(text32) { text<char32_t>(); }
