// C15: flag sets behave as bit sets
// vc-overflow: 1
#include "vc.hpp"
#include <nytl/flags.hpp>
using nytl::Flags;

namespace {
enum class E8 : std::uint8_t { a = 1, b = 2, c = 128 };
enum class E16 : std::uint16_t { a = 1, b = 2, c = 0x8000 };
enum class E32 : std::uint32_t { a = 1, b = 2, c = 0x80000000u };
enum class E64 : std::uint64_t { a = 1, b = 2, c = 0x8000000000000000ull };
enum class S32 : std::int32_t { a = 1, b = 2, c = 4 };
enum class S8 : std::int8_t { a = 1, b = 2, c = 4 };
enum class Plain { a = 1, b = 2, c = 4 };
NYTL_FLAG_OPS(E8) NYTL_FLAG_OPS(E16) NYTL_FLAG_OPS(E32) NYTL_FLAG_OPS(E64) NYTL_FLAG_OPS(S32) NYTL_FLAG_OPS(S8) NYTL_FLAG_OPS(Plain)

template<typename F, typename U> U val(const F& f) { return *reinterpret_cast<const U*>(&f); }

template<typename E, typename U> void set() {
	using F = Flags<E, U>;
	static_assert(sizeof(F) == sizeof(U));
	F a, b;
	ENSURE((val<F, U>(a) == 0), "a default flag set is empty");
	*reinterpret_cast<U*>(&a) = vc::any<U>("a");
	*reinterpret_cast<U*>(&b) = vc::any<U>("b");
	const U A = val<F, U>(a), B = val<F, U>(b);
	const E e = static_cast<E>(vc::any<std::underlying_type_t<E>>("e"));
	const U X = static_cast<U>(e);
	ENSURE((val<F, U>(F(e)) == X), "construction from a value stores that value");
	{ F f = e; ENSURE((val<F, U>(f) == X), "implicit construction from a value stores that value"); }
	ENSURE((val<F, U>(F(nytl::invertFlags, e)) == (U)(~X)), "inverting construction stores the complement");
	ENSURE(a.value() == A && (U) a == A && a.value_ == A, "value");
	ENSURE((val<F, U>(a | b) == (U)(A | B)), "a | b");
	ENSURE((val<F, U>(a & b) == (U)(A & B)), "a & b");
	ENSURE((val<F, U>(a ^ b) == (U)(A ^ B)), "a ^ b");
	ENSURE((val<F, U>(a | e) == (U)(A | X)), "flags | value");
	ENSURE((val<F, U>(a & e) == (U)(A & X)), "flags & value");
	ENSURE((val<F, U>(a ^ e) == (U)(A ^ X)), "flags ^ value");
	ENSURE((val<F, U>(a) == A) && (val<F, U>(b) == B), "operands unchanged");
	ENSURE((a == b) == (A == B), "== compares all bits");
	ENSURE((a != b) == (A != B), "!= compares all bits");
	ENSURE((a == F(e)) == (A == X), "flags == value");
	{ F f = a; auto& r = (f |= b); ENSURE(&r == &f && (val<F, U>(f) == (U)(A | B)), "a |= b"); }
	{ F f = a; auto& r = (f &= b); ENSURE(&r == &f && (val<F, U>(f) == (U)(A & B)), "a &= b"); }
	{ F f = a; auto& r = (f ^= b); ENSURE(&r == &f && (val<F, U>(f) == (U)(A ^ B)), "a ^= b"); }
	{ F f = a; f |= e; ENSURE((val<F, U>(f) == (U)(A | X)), "a |= value"); }
	{ F f = a; f &= e; ENSURE((val<F, U>(f) == (U)(A & X)), "a &= value"); }
	{ F f = a; f ^= e; ENSURE((val<F, U>(f) == (U)(A ^ X)), "a ^= value"); }
	{ F f = a; f |= f; ENSURE((val<F, U>(f) == A), "a |= a"); }
	{ F f = a; f &= f; ENSURE((val<F, U>(f) == A), "a &= a"); }
	{ F f = a; f ^= f; ENSURE((val<F, U>(f) == 0), "a ^= a"); }
	{ F f = a, g = b; f = g; ENSURE((val<F, U>(f) == B), "assignment"); }
	ENSURE((val<F, U>(b) == B), "right operand unchanged");
}

template<typename E> void ops() {
	using U = std::underlying_type_t<E>;
	using F = Flags<E>;
	static_assert(std::is_same_v<F, Flags<E, U>>);
	F a; *reinterpret_cast<U*>(&a) = vc::any<U>("a");
	const U A = val<F, U>(a);
	const E e = static_cast<E>(vc::any<U>("e")), f = static_cast<E>(vc::any<U>("f"));
	const U X = static_cast<U>(e), Y = static_cast<U>(f);
	static_assert(std::is_same_v<decltype(e | f), F> && std::is_same_v<decltype(e & f), F>
		&& std::is_same_v<decltype(e ^ f), F> && std::is_same_v<decltype(~e), F>
		&& std::is_same_v<decltype(e | a), F> && std::is_same_v<decltype(e & a), F> && std::is_same_v<decltype(e ^ a), F>);
	ENSURE((val<F, U>(e | f) == (U)(X | Y)), "value | value");
	ENSURE((val<F, U>(e & f) == (U)(X & Y)), "value & value");
	ENSURE((val<F, U>(e ^ f) == (U)(X ^ Y)), "value ^ value");
	ENSURE((val<F, U>(~e) == (U)(~X)), "~value is the complement");
	ENSURE((val<F, U>(e | a) == (U)(X | A)), "value | flags");
	ENSURE((val<F, U>(e & a) == (U)(X & A)), "value & flags");
	ENSURE((val<F, U>(e ^ a) == (U)(X ^ A)), "value ^ flags");
	ENSURE((val<F, U>(a) == A), "flags operand unchanged");
}
}

HARNESS(set_e8) { set<E8, std::uint8_t>(); }
HARNESS(set_e16) { set<E16, std::uint16_t>(); }
HARNESS(set_e32) { set<E32, std::uint32_t>(); }
HARNESS(set_e64) { set<E64, std::uint64_t>(); }
HARNESS(set_s32) { set<S32, std::int32_t>(); }
HARNESS(set_s8) { set<S8, std::int8_t>(); }
HARNESS(set_plain) { set<Plain, std::underlying_type_t<Plain>>(); }
HARNESS(set_e8_in_32) { set<E8, std::uint32_t>(); }
HARNESS(set_s32_in_u32) { set<S32, std::uint32_t>(); }
HARNESS(set_e32_in_64) { set<E32, std::uint64_t>(); }
HARNESS(set_plain_in_16) { set<Plain, std::uint16_t>(); }
HARNESS(ops_e8) { ops<E8>(); }
HARNESS(ops_e16) { ops<E16>(); }
HARNESS(ops_e32) { ops<E32>(); }
HARNESS(ops_e64) { ops<E64>(); }
HARNESS(ops_s32) { ops<S32>(); }
HARNESS(ops_s8) { ops<S8>(); }
HARNESS(ops_plain) { ops<Plain>(); }
