// C14: byte buffers. Every operation is specified for a buffer of any size at any place inside of a larger memory;
// the contracts compose to any sequence of operations. Values are arbitrary object representations.
#include "vc.hpp"
#include <nytl/bytes.hpp>
using namespace nytl;
using std::size_t; using std::byte;

namespace {
struct Rec { std::int64_t a; std::int16_t b; std::int8_t c; };   // with padding
struct Small { std::uint8_t a, b, c; };
using Arr = std::array<std::int16_t, 3>;

size_t num(const char* n) {
	size_t x = vc::any<std::uint64_t>(n);
#ifdef VC_NATIVE
	x %= 64;
#else
	REQUIRE(x < (1ull << 40));
#endif
	return x;
}
byte* mem(const char* n, size_t s) { return reinterpret_cast<byte*>(vc_bytes(n, s)); }
template<typename T> T value(const char* n) { T x; std::memcpy(&x, mem(n, sizeof(T)), sizeof(T)); return x; }
template<typename T> byte at(const T& x, size_t i) { return reinterpret_cast<const byte*>(&x)[i]; }

/// a buffer of n bytes inside of a memory
struct Place {
	byte* all; size_t pre, n, post, j; byte old; bool have;
	Place(const char* name) {
		pre = num("before"); n = num("size"); post = num("after");
		all = mem(name, pre + n + post);
		j = vc::any<std::uint64_t>("j");
#ifdef VC_NATIVE
		if(total()) j %= total();
#endif
		have = vc_split(j < total());
		if(have) old = all[j];
	}
	size_t total() const { return pre + n + post; }
	byte* data() const { return all + pre; }
	/// nothing but [from, from + k) of the buffer has changed
	void unchangedBut(size_t from, size_t k, const char* what) {
		if(have && !(j >= pre + from && j < pre + from + k)) ENSURE(all[j] == old, what);
	}
	template<typename B> void advanced(const B& b, size_t by) {
		ENSURE(b.data() == data() + by && b.size() == n - by, "advanced by exactly that amount");
	}
};

template<typename T> void writeFixed() {
	Place p("mem"); REQUIRE(p.n >= sizeof(T));
	WriteBuf buf(p.data(), p.n);
	T obj = value<T>("obj"), keep = obj;
	write(buf, obj);
	p.advanced(buf, sizeof(T));
	for(size_t i = 0; i < sizeof(T); ++i) ENSURE(p.data()[i] == at(keep, i) && at(obj, i) == at(keep, i), "stores the object representation");
	p.unchangedBut(0, sizeof(T), "touches nothing else");
}
template<typename T> void readFixed() {
	Place p("mem"); REQUIRE(p.n >= sizeof(T));
	ReadBuf buf(p.data(), p.n);
	auto kind = vc::pick(2, "pickkind");
	T obj = value<T>("obj");
	if(kind) obj = read<T>(buf); else read(buf, obj);
	p.advanced(buf, sizeof(T));
	for(size_t i = 0; i < sizeof(T); ++i) ENSURE(at(obj, i) == p.data()[i], "yields the stored representation");
	p.unchangedBut(0, 0, "reading modifies nothing");
}
template<typename T> void copyTo() {
	Place p("mem");
	ReadBuf buf(p.data(), p.n);
	auto kind = vc::pick(2, "pickkind");
	T obj;
	if(kind) { REQUIRE(p.n >= sizeof(T)); obj = copy<T>(buf); }
	else { REQUIRE(p.n == sizeof(T)); obj = copyExact<T>(buf); }
	p.advanced(buf, 0);
	for(size_t i = 0; i < sizeof(T); ++i) ENSURE(at(obj, i) == p.data()[i], "yields the stored representation");
	p.unchangedBut(0, 0, "copying out modifies nothing");
}
template<typename T> void bytesOf() {
	T obj = value<T>("obj"); const T& cobj = obj;
	auto b = bytes(obj); auto c = bytes(cobj);
	static_assert(std::is_same_v<decltype(b), WriteBuf> && std::is_same_v<decltype(c), ReadBuf>);
	ENSURE(b.data() == (byte*) &obj && b.size() == sizeof(T) && c.data() == (byte*) &obj && c.size() == sizeof(T), "the bytes of an object");
	size_t n = num("n");
	T* q = reinterpret_cast<T*>(mem("elements", n * sizeof(T)));
	auto d = bytes(span<T>(q, n)); auto e = bytes(span<const T>(q, n));
	ENSURE(d.data() == (byte*) q && d.size() == n * sizeof(T) && e.data() == (byte*) q && e.size() == n * sizeof(T), "the bytes of the elements of a span");
	T arr[3]; span<T, 3> s(arr); span<const T, 3> cs(arr);
	auto f = bytes(s); auto g = bytes(cs); auto h = bytes(span<T, 3>(arr));
	ENSURE(f.data() == (byte*) arr && f.size() == 3 * sizeof(T) && g.data() == (byte*) arr && g.size() == 3 * sizeof(T) &&
		h.data() == (byte*) arr && h.size() == 3 * sizeof(T), "the bytes of the elements of a fixed span");
	std::vector<T> v(vc::pick(3, "picklen")); const auto& cv = v;
	auto k = bytes(v); auto l = bytes(cv);
	static_assert(std::is_same_v<decltype(k), WriteBuf> && std::is_same_v<decltype(l), ReadBuf>);
	ENSURE(k.data() == (byte*) v.data() && k.size() == v.size() * sizeof(T) && l.data() == (byte*) v.data() && l.size() == k.size(), "the bytes of the elements of a vector");
	std::initializer_list<T> il = {obj, obj}; auto m = bytes(il);
	ENSURE(m.data() == (const byte*) il.begin() && m.size() == 2 * sizeof(T), "the bytes of an initializer list");
}
/// write A and B, skip, write A; then read them back in order
template<typename A, typename B> void sequence() {
	Place p("mem"); size_t gap = num("gap");
	constexpr size_t s = sizeof(A) + sizeof(B) + sizeof(A);
	REQUIRE(p.n >= gap && p.n - gap >= s);
	WriteBuf w(p.data(), p.n); ReadBuf r = w;
	A a = value<A>("a"), c = value<A>("c"); B b = value<B>("b");
	write(w, a); write(w, b); skip(w, gap); write(w, c);
	p.advanced(w, s + gap);
	p.unchangedBut(0, s + gap, "nothing else is touched");
	if(p.have && p.j >= p.pre + sizeof(A) + sizeof(B) && p.j < p.pre + sizeof(A) + sizeof(B) + gap) ENSURE(p.all[p.j] == p.old, "skipped bytes are not modified");
	A x = read<A>(r); B y = read<B>(r); skip(r, gap); A z; read(r, z);
	p.advanced(r, s + gap);
	for(size_t i = 0; i < sizeof(A); ++i) ENSURE(at(x, i) == at(a, i) && at(z, i) == at(c, i), "reading back yields equal values");
	for(size_t i = 0; i < sizeof(B); ++i) ENSURE(at(y, i) == at(b, i), "reading back yields equal values");
}
/// a growing buffer with any content and any spare capacity
template<typename T> void grow() {
	size_t n = num("size"), spare = num("spare");
	{
		DynWriteBuf buf;
		if(vc::pick(2, "pickreserve")) buf.reserve(n + spare);
		buf.resize(n);
		size_t j = vc::any<std::uint64_t>("j"); byte old = vc::any<std::uint8_t>("old") ? byte {1} : byte {7};
#ifdef VC_NATIVE
		if(n) j %= n;
#endif
		bool have = vc_split(j < n);
		if(have) buf[j] = old;
		T obj = value<T>("obj");
		write(buf, obj);
		ENSURE(buf.size() == n + sizeof(T), "grows by the size of the object");
		for(size_t i = 0; i < sizeof(T); ++i) ENSURE(buf[n + i] == at(obj, i), "appends the object representation");
		if(have) ENSURE(buf[j] == old, "earlier content is kept");
	}
	vc_noleak();
}
}
#define TYPES(f) HARNESS(f##_u8) { f<std::uint8_t>(); } HARNESS(f##_i16) { f<std::int16_t>(); } HARNESS(f##_u32_thorough) { f<std::uint32_t>(); } HARNESS(f##_i64_thorough) { f<std::int64_t>(); } \
	HARNESS(f##_f32) { f<float>(); } HARNESS(f##_f64_thorough) { f<double>(); } HARNESS(f##_small) { f<Small>(); } HARNESS(f##_rec) { f<Rec>(); } HARNESS(f##_arr) { f<Arr>(); }
TYPES(writeFixed) TYPES(readFixed) TYPES(copyTo) TYPES(bytesOf) TYPES(grow)
HARNESS(sequence_u8_u32) { sequence<std::uint8_t, std::uint32_t>(); }
HARNESS(sequence_i16_small) { sequence<std::int16_t, Small>(); }
HARNESS(sequence_f32_rec_thorough) { sequence<float, Rec>(); }

HARNESS(writeBytes) {
	Place p("mem"); size_t k = num("k"); REQUIRE(p.n >= k);
	WriteBuf buf(p.data(), p.n);
	byte* src = mem("src", k); size_t i = vc::any<std::uint64_t>("i");
#ifdef VC_NATIVE
	if(k) i %= k;
#endif
	bool have = vc_split(i < k); byte v {}; if(have) v = src[i];
	ReadBuf s(src, k);
	write(buf, s);
	p.advanced(buf, k);
	ENSURE(s.data() == src && s.size() == k, "the source buffer stays");
	if(have) ENSURE(p.data()[i] == v && src[i] == v, "stores exactly the source");
	p.unchangedBut(0, k, "touches nothing else");
}
HARNESS(readBytes) {
	Place p("mem"); size_t k = num("k"); REQUIRE(p.n >= k);
	ReadBuf buf(p.data(), p.n);
	byte* dst = mem("dst", k); size_t i = vc::any<std::uint64_t>("i");
#ifdef VC_NATIVE
	if(k) i %= k;
#endif
	bool have = vc_split(i < k);
	WriteBuf d(dst, k);
	read(buf, d);
	p.advanced(buf, k);
	ENSURE(d.data() == dst && d.size() == k, "the target buffer stays");
	if(have) ENSURE(dst[i] == p.data()[i], "yields exactly the stored bytes");
	p.unchangedBut(0, 0, "reading modifies nothing");
}
HARNESS(copyBytes) {
	Place p("mem"); Place q("dst"); REQUIRE(p.n == q.n);
	ReadBuf s(p.data(), p.n); WriteBuf d(q.data(), q.n);
	size_t i = vc::any<std::uint64_t>("i");
#ifdef VC_NATIVE
	if(p.n) i %= p.n;
#endif
	copy(s, d);
	p.advanced(s, 0); q.advanced(d, 0);
	if(vc_split(i < p.n)) ENSURE(q.data()[i] == p.data()[i], "copies exactly the bytes");
	p.unchangedBut(0, 0, "the source is not modified");
	q.unchangedBut(0, q.n, "nothing outside of the target is touched");
}
HARNESS(skipBytes) {
	Place p("mem"); size_t k = num("k"); REQUIRE(p.n >= k);
	if(vc::pick(2, "pickkind")) { ReadBuf b(p.data(), p.n); skip(b, k); p.advanced(b, k); }
	else { WriteBuf b(p.data(), p.n); skip(b, k); p.advanced(b, k); }
	p.unchangedBut(0, 0, "skipping modifies nothing");
}
HARNESS(growBytes) {
	size_t n = num("size"), spare = num("spare"), k = num("k");
	byte* src = mem("src", k);
	{
		DynWriteBuf buf;
		if(vc::pick(2, "pickreserve")) buf.reserve(n + spare);
		buf.resize(n);
		size_t i = vc::any<std::uint64_t>("i"), j = vc::any<std::uint64_t>("j");
#ifdef VC_NATIVE
		if(k) i %= k;
		if(n) j %= n;
#endif
		bool have = vc_split(j < n), in = vc_split(i < k);
		if(have) buf[j] = byte {9};
		write(buf, ReadBuf(src, k));
		ENSURE(buf.size() == n + k, "grows by the size of the source");
		if(in) ENSURE(buf[n + i] == src[i], "appends exactly the source");
		if(have) ENSURE(buf[j] == byte {9}, "earlier content is kept");
	}
	vc_noleak();
}
/// a growing buffer appended to itself, as a whole or in part
HARNESS(growOwn) {
	size_t n = num("size"), spare = num("spare"), o = num("offset"), k = num("k");
	{
		DynWriteBuf buf;
		if(vc::pick(2, "pickreserve")) buf.reserve(n + spare);
		buf.resize(n);
		size_t i = vc::any<std::uint64_t>("i"), j = vc::any<std::uint64_t>("j");
#ifdef VC_NATIVE
		o %= n + 1; k %= n - o + 1;
		if(k) i %= k;
		if(n) j %= n;
#endif
		REQUIRE(o <= n && k <= n - o);
		bool have = vc_split(j < n), in = vc_split(i < k);
		if(have) buf[j] = byte {9};
		byte v {}; if(in) v = buf[o + i];
		if(vc::pick(2, "pickwhole")) { REQUIRE(o == 0 && k == n); write(buf, buf); }
		else write(buf, ReadBuf(buf.data() + o, k));
		ENSURE(buf.size() == n + k, "grows by the size of the source");
		if(in) ENSURE(buf[n + i] == v, "appends exactly the source");
		if(have) ENSURE(buf[j] == byte {9}, "earlier content is kept");
	}
	vc_noleak();
}
/// nothing at all, wherever it is
HARNESS(empties) {
	byte x[4] {}; std::vector<std::int32_t> e;
	WriteBuf none, some(x); ReadBuf rnone, rsome(x);
	write(none, ReadBuf {}); write(some, ReadBuf {}); write(some, e); write(none, e);
	read(rnone, WriteBuf {}); read(rsome, WriteBuf {}); read(rsome, e);
	copy(ReadBuf {}, WriteBuf {}); skip(none, 0); skip(rnone, 0);
	ENSURE(none.data() == nullptr && none.empty() && rnone.data() == nullptr && rnone.empty(), "nothing stays nothing");
	ENSURE(some.data() == x && some.size() == 4 && rsome.data() == x && rsome.size() == 4, "not advanced");
	DynWriteBuf d; write(d, e); write(d, ReadBuf {}); write(d, d);
	ENSURE(d.empty(), "nothing is appended");
	write(d, std::uint8_t {5}); write(d, e);
	ENSURE(d.size() == 1 && d[0] == byte {5}, "nothing is appended");
}
/// whole containers
template<typename T, bool dyn> void containers() {
	Place p("mem"); size_t n = num("n"); REQUIRE(p.n >= n * sizeof(T));
	T* q = reinterpret_cast<T*>(mem("elements", n * sizeof(T)));
	size_t i = vc::any<std::uint64_t>("i");
#ifdef VC_NATIVE
	if(n) i %= n;
#endif
	bool have = vc_split(i < n);
	WriteBuf w(p.data(), p.n);
	span<T> s(q, n);
	write(w, s);
	p.advanced(w, n * sizeof(T));
	p.unchangedBut(0, n * sizeof(T), "touches nothing else");
	T* back = reinterpret_cast<T*>(mem("back", n * sizeof(T)));
	ReadBuf r(p.data(), p.n); span<T> t(back, n);
	read(r, t);
	p.advanced(r, n * sizeof(T));
	if(have) ENSURE(q[i] == back[i], "reading back yields equal elements");
}
HARNESS(containers_i32) { containers<std::int32_t, false>(); }
HARNESS(containers_u8) { containers<std::uint8_t, false>(); }
HARNESS(vectors) {
	size_t n = vc::pick(4, "picklen");
	Place p("mem"); REQUIRE(p.n >= n * 4);
	{
		std::vector<std::int32_t> v(n), x(n);
		for(auto& e : v) e = vc::any<std::int32_t>("e");
		WriteBuf w(p.data(), p.n);
		write(w, v);
		p.advanced(w, n * 4); p.unchangedBut(0, n * 4, "touches nothing else");
		ReadBuf r(p.data(), p.n);
		read(r, x);
		p.advanced(r, n * 4);
		ENSURE(v == x, "reading back yields equal elements");
		DynWriteBuf d; write(d, v); write(d, std::uint16_t {3}); write(d, v);
		ENSURE(d.size() == n * 8 + 2, "grows by the elements");
		ReadBuf dr(d); std::vector<std::int32_t> y(n), z(n);
		read(dr, y); auto three = read<std::uint16_t>(dr); read(dr, z);
		ENSURE(y == v && z == v && three == 3 && dr.empty(), "a growing buffer reads back");
	}
	vc_noleak();
}
