// Specification primitives. The same harness text is
//  (a) compiled to LLVM IR and turned into verification conditions (VC_SYMBOLIC), and
//  (b) compiled natively, to replay counterexamples and to run bounded stand-ins (VC_NATIVE).
#pragma once
#include <cstdint>
#include <cstddef>
#include <exception>
#include <type_traits>

extern "C" {
double vc_f64(const char* name);
float vc_f32(const char* name);
std::uint8_t vc_i8(const char* name);
std::uint16_t vc_i16(const char* name);
std::uint32_t vc_i32(const char* name);
std::uint64_t vc_i64(const char* name);
bool vc_i1(const char* name);
void vc_assume(bool);
void vc_ensure(bool, const char* label);
std::uint64_t vc_pick(std::uint64_t n, const char* name);
bool vc_eq(double, double);
bool vc_le(double, double);
bool vc_lt(double, double);
void vc_reach(const char* label);
int vc_depth(int random);
void vc_nontrivial();
void vc_noleak();
std::uint64_t vc_live();
void vc_set_uncaught(std::uint32_t n);
bool vc_split(bool);
void* vc_opaque(const char* name);
double vc_let(double);
bool vc_symbolic();
std::uint64_t vc_choose(std::uint64_t n);
std::uint8_t* vc_bytes(const char* name, std::uint64_t size);
std::uint8_t* vc_bytes_heap(const char* name, std::uint64_t size);
}

#ifdef VC_NATIVE
namespace vc { struct Reg { Reg(const char* n, void (*f)()); }; }
#define HARNESS(name) \
	extern "C" void h_##name(); \
	static vc::Reg vc_reg_##name(#name, &h_##name); \
	extern "C" void h_##name()
#else
#define HARNESS(name) extern "C" void h_##name()
#endif

#define ENSURE(...) vc_ensure(__VA_ARGS__)
#define REQUIRE(...) vc_assume(__VA_ARGS__)

namespace vc {

template<typename T> T any(const char* n);
template<> inline double any<double>(const char* n) { return vc_f64(n); }
template<> inline float any<float>(const char* n) { return vc_f32(n); }
template<> inline bool any<bool>(const char* n) { return vc_i1(n); }
template<> inline std::uint8_t any<std::uint8_t>(const char* n) { return vc_i8(n); }
template<> inline std::int8_t any<std::int8_t>(const char* n) { return (std::int8_t) vc_i8(n); }
template<> inline char any<char>(const char* n) { return (char) vc_i8(n); }
template<> inline std::uint16_t any<std::uint16_t>(const char* n) { return vc_i16(n); }
template<> inline std::int16_t any<std::int16_t>(const char* n) { return (std::int16_t) vc_i16(n); }
template<> inline std::uint32_t any<std::uint32_t>(const char* n) { return vc_i32(n); }
template<> inline std::int32_t any<std::int32_t>(const char* n) { return (std::int32_t) vc_i32(n); }
template<> inline std::uint64_t any<std::uint64_t>(const char* n) { return vc_i64(n); }
template<> inline std::int64_t any<std::int64_t>(const char* n) { return (std::int64_t) vc_i64(n); }

/// any number of exceptions may be in flight when an operation begins
inline void inflight() { auto n = any<std::uint32_t>("inflight"); REQUIRE(n < (1u << 30)); vc_set_uncaught(n); }
inline std::uint64_t pick(std::uint64_t n, const char* name = "pick") { return vc_pick(n, name); }

template<typename A, typename B> inline bool eq(A a, B b) {
	if constexpr(std::is_floating_point_v<A> || std::is_floating_point_v<B>) return vc_eq((double) a, (double) b);
	else return a == b;
}
/// names a value: proofs about it can ignore how it was computed
inline double let(double x) { return vc_let(x); }
inline bool symbolic() { return vc_symbolic(); }
inline bool le(double a, double b) { return vc_le(a, b); }
inline bool lt(double a, double b) { return vc_lt(a, b); }

#ifdef VC_NATIVE
bool replaying();
inline constexpr bool native = true; // with rounding
void normalise(double* v, int n);
#else
inline bool replaying() { return true; }
inline constexpr bool native = false;
inline void normalise(double*, int) {}
#endif

/// n components with euclidean norm one
template<typename T> inline void unit(T* v, int n, const char* name) {
	double d[8];
	double s = 0;
	for(int i = 0; i < n; ++i) d[i] = (double) any<T>(name);
	if(!replaying()) normalise(d, n);
	for(int i = 0; i < n; ++i) { v[i] = (T) d[i]; s += d[i] * d[i]; }
	vc_assume(vc_eq(s, 1.0));
}

/// raw component access, independent of the operators under verification
template<typename T, typename V> inline T* raw(V& v) { return reinterpret_cast<T*>(&v); }
template<typename T, typename V> inline const T* raw(const V& v) { return reinterpret_cast<const T*>(&v); }

template<typename T, typename V> inline void fill(V& v, int n, const char* name) {
	T* p = raw<T>(v);
	for(int i = 0; i < n; ++i) p[i] = any<T>(name);
}

#ifdef VC_NATIVE
/// exact rational numbers: native runs of harnesses whose code tests for exact zeros are not disturbed by rounding
struct Q {
	__int128 n = 0, d = 1;
	constexpr Q() = default;
	Q(double x);
	Q(__int128 a, __int128 b);
	Q(int x) : n(x) {}
	explicit operator double() const { return (double) n / (double) d; }
	Q& operator+=(const Q& o) { return *this = *this + o; }
	Q& operator-=(const Q& o) { return *this = *this - o; }
	Q& operator*=(const Q& o) { return *this = *this * o; }
	Q& operator/=(const Q& o) { return *this = *this / o; }
	Q operator-() const { Q r = *this; r.n = -r.n; return r; }
	static Q sum(const Q&, const Q&, int);
	static Q prod(const Q&, __int128, __int128);
	friend Q operator+(const Q& a, const Q& b) { return sum(a, b, 1); }
	friend Q operator-(const Q& a, const Q& b) { return sum(a, b, -1); }
	friend Q operator*(const Q& a, const Q& b) { return prod(a, b.n, b.d); }
	friend Q operator/(const Q& a, const Q& b) { return prod(a, b.n < 0 ? -b.d : b.d, b.n < 0 ? -b.n : b.n); }
	friend bool operator==(const Q& a, const Q& b) { return a.n == b.n && a.d == b.d; }
	friend bool operator!=(const Q& a, const Q& b) { return !(a == b); }
	friend bool operator<(const Q& a, const Q& b) { return (a - b).n < 0; }
	friend bool operator>(const Q& a, const Q& b) { return b < a; }
	friend bool operator<=(const Q& a, const Q& b) { return !(b < a); }
	friend bool operator>=(const Q& a, const Q& b) { return !(a < b); }
};
Q anyQ(const char*);
template<> inline Q any<Q>(const char* n) { return anyQ(n); }
using Real = Q;
inline bool eq(const Q& a, const Q& b) { return a == b; }
#else
using Real = double;
#endif

} // namespace vc

#ifdef VC_NATIVE
namespace std {
inline vc::Q abs(const vc::Q& x) { return x.n < 0 ? -x : x; }
inline vc::Q fabs(const vc::Q& x) { return abs(x); }
inline vc::Q fma(const vc::Q& a, const vc::Q& b, const vc::Q& c) { return a * b + c; }
}
#endif
