// C12: the functions, against the contract assumed for the library's std::wstring_convert with the facets used:
//   codecvt_utf8_utf16<char16_t>: to_bytes(UTF-16 of X) = UTF-8 of X, from_bytes(UTF-8 of X) = UTF-16 of X
//   codecvt_utf8<char32_t>:       to_bytes(UTF-32 of X) = UTF-8 of X, from_bytes(UTF-8 of X) = UTF-32 of X
// for every sequence X of scalar values. X is abstract: its three encodings are three memories of any content and size.
// vc-internal: the library is replaced
// vc-norefute: another use of the library is not a violation, C12_text decides it
// vc-contract: ^_ZNSt7__cxx1115wstring_convertISt18codecvt_utf8_utf16IDsLm1114111ELSt12codecvt_mode0EEDsSaIDsESaIcEE8to_bytesEPKDsS8_$ -> to_bytes16 -- assumed: the standard; its compiled code is checked bounded by C12_text
// vc-contract: ^_ZNSt7__cxx1115wstring_convertISt18codecvt_utf8_utf16IDsLm1114111ELSt12codecvt_mode0EEDsSaIDsESaIcEE10from_bytesEPKcS8_$ -> from_bytes16 -- assumed: the standard; its compiled code is checked bounded by C12_text
// vc-contract: ^_ZNSt7__cxx1115wstring_convertISt12codecvt_utf8IDiLm1114111ELSt12codecvt_mode0EEDiSaIDiESaIcEE8to_bytesEPKDiS8_$ -> to_bytes32 -- assumed: the standard; its compiled code is checked bounded by C12_text
// vc-contract: ^_ZNSt7__cxx1115wstring_convertISt12codecvt_utf8IDiLm1114111ELSt12codecvt_mode0EEDiSaIDiESaIcEE10from_bytesEPKcS8_$ -> from_bytes32 -- assumed: the standard; its compiled code is checked bounded by C12_text
// vc-contract: ^_ZNSt7__cxx1115wstring_convertISt.*EEC[12]Ev$ -> nothing -- assumed: the standard; its compiled code is checked bounded by C12_text
// vc-contract: ^_ZNSt7__cxx1115wstring_convertISt.*EED[12]Ev$ -> nothing -- assumed: the standard; its compiled code is checked bounded by C12_text
#include "vc.hpp"
#include <new>
#include <nytl/utf.hpp>
using std::size_t;

namespace {
/// one encoding of X
template<typename C> struct Enc {
	size_t n; C* s;
	void make(const char* name, const char* sz) {
		n = vc::any<std::uint64_t>(sz);
		REQUIRE(n < (1ull << 40));
		s = (C*) vc_bytes_heap(name, n * sizeof(C));
	}
	bool is(const C* a, size_t k) const { return (a == s) & (k == n); }
	std::basic_string_view<C> view() const { return {s, n}; }
};
Enc<char> u8; Enc<char16_t> u16; Enc<char32_t> u32;
struct Setup { Setup() { u8.make("utf8", "size8"); u16.make("utf16", "size16"); u32.make("utf32", "size32"); } };

/// the representation of a standard string (libstdc++) with the characters at s
template<typename C> struct Rep { C* data; size_t size; size_t cap, pad; };
template<typename C> void string(void* mem, const Enc<C>& e) {
	static_assert(sizeof(Rep<C>) == sizeof(std::basic_string<C>));
	new (mem) Rep<C> {e.s, e.n, e.n, 0};
}
template<typename C> bool holds(const std::basic_string<C>& s, const Enc<C>& e) { return (s.data() == e.s) & (s.size() == e.n); }
}

extern "C" {
void nothing(void*) {}
void to_bytes16(void* ret, void*, const char16_t* a, const char16_t* b) { ENSURE(u16.is(a, b - a), "the whole UTF-16 text is converted"); string(ret, u8); }
void to_bytes32(void* ret, void*, const char32_t* a, const char32_t* b) { ENSURE(u32.is(a, b - a), "the whole UTF-32 text is converted"); string(ret, u8); }
void from_bytes16(void* ret, void*, const char* a, const char* b) { ENSURE(u8.is(a, b - a), "the whole UTF-8 text is converted"); string(ret, u16); }
void from_bytes32(void* ret, void*, const char* a, const char* b) { ENSURE(u8.is(a, b - a), "the whole UTF-8 text is converted"); string(ret, u32); }
}

namespace { template<typename C, typename F> void check(const Enc<C>& to, F f) {
	Setup s;
	alignas(std::string) char mem[sizeof(std::string)];
	auto& r = *new (mem) std::basic_string<C>(f());
	ENSURE(holds(r, to), "the encoding of the same sequence");
} }
HARNESS(utf16_to_8) { check(u8, [] { return nytl::toUtf8(u16.view()); }); }
HARNESS(utf32_to_8) { check(u8, [] { return nytl::toUtf8(u32.view()); }); }
HARNESS(utf8_to_16) { check(u16, [] { return nytl::toUtf16(u8.view()); }); }
HARNESS(utf32_to_16) { check(u16, [] { return nytl::toUtf16(u32.view()); }); }
HARNESS(utf8_to_32) { check(u32, [] { return nytl::toUtf32(u8.view()); }); }
HARNESS(utf16_to_32) { check(u32, [] { return nytl::toUtf32(u16.view()); }); }
