// C12, bounded: every single scalar value and all short sequences of the values around the changes of the encoded
// length, random longer texts, against an encoder written from the standard.
// vc-mode: native
// vc-enumsecs: 30
// vc-depth: 5
// vc-runs: 40000
#include "vc.hpp"
#include <nytl/utf.hpp>
#include <vector>
#include <array>

namespace {
struct Text {
	std::u32string u32; std::u16string u16; std::string u8;
	void add(char32_t c) {
		u32 += c;
		if(c < 0x10000) u16 += char16_t(c);
		else { u16 += char16_t(0xD7C0 + (c >> 10)); u16 += char16_t(0xDC00 | (c & 0x3FF)); }
		if(c < 0x80) u8 += char(c);
		else if(c < 0x800) { u8 += char(0xC0 | (c >> 6)); u8 += char(0x80 | (c & 63)); }
		else if(c < 0x10000) { u8 += char(0xE0 | (c >> 12)); u8 += char(0x80 | ((c >> 6) & 63)); u8 += char(0x80 | (c & 63)); }
		else { u8 += char(0xF0 | (c >> 18)); u8 += char(0x80 | ((c >> 12) & 63)); u8 += char(0x80 | ((c >> 6) & 63)); u8 += char(0x80 | (c & 63)); }
	}
};
constexpr char32_t edge[] = {0, 1, 'a', 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFEFF, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF};
constexpr int nEdge = sizeof(edge) / sizeof(edge[0]);
constexpr std::uint32_t nScalars = 0x110000 - 0x800;
char32_t scalar(std::uint32_t i) { return i < 0xD800 ? i : i + 0x800; }

/// edge values, one value, or any values; the number of choices depends on how texts are enumerated, their meaning does not
Text make() {
	Text t;
	int d = vc_depth(-1);      // negative: random texts and replays
	auto kind = vc::pick(d < 0 ? 4 : d == 1 ? 2 : 1);
	if(kind == 1) { t.add(scalar(vc::pick(nScalars))); return t; }
	auto n = vc::pick(d < 0 ? 200 : d + 1);
	for(std::size_t i = 0; i < n; ++i) {
		if(kind == 0) t.add(edge[vc::pick(nEdge)]);
		else if(kind == 2) t.add(scalar(vc::pick(nScalars)));
		else t.add(scalar(vc::pick(nScalars) >> vc::pick(20)));
	}
	return t;
}
}
HARNESS(conversions) {
	using namespace nytl;
	Text t = make();
	if(t.u32.size()) vc_nontrivial();
	ENSURE(toUtf8(t.u16) == t.u8, "toUtf8 of UTF-16: the standard encoding");
	ENSURE(toUtf8(t.u32) == t.u8, "toUtf8 of UTF-32: the standard encoding");
	ENSURE(toUtf16(t.u8) == t.u16, "toUtf16 of UTF-8: the standard encoding");
	ENSURE(toUtf16(t.u32) == t.u16, "toUtf16 of UTF-32: the standard encoding");
	ENSURE(toUtf32(t.u8) == t.u32, "toUtf32 of UTF-8: the standard encoding");
	ENSURE(toUtf32(t.u16) == t.u32, "toUtf32 of UTF-16: the standard encoding");
}
HARNESS(round_trips) {
	using namespace nytl;
	Text t = make();
	if(t.u32.size()) vc_nontrivial();
	ENSURE(toUtf16(toUtf8(t.u16)) == t.u16, "UTF-16 via UTF-8 and back");
	ENSURE(toUtf32(toUtf8(t.u32)) == t.u32, "UTF-32 via UTF-8 and back");
	ENSURE(toUtf16(toUtf32(t.u16)) == t.u16, "UTF-16 via UTF-32 and back");
	ENSURE(toUtf32(toUtf16(t.u32)) == t.u32, "UTF-32 via UTF-16 and back");
	ENSURE(toUtf8(toUtf16(t.u8)) == t.u8, "UTF-8 via UTF-16 and back");
	ENSURE(toUtf8(toUtf32(t.u8)) == t.u8, "UTF-8 via UTF-32 and back");
}
