// C14: requests beyond the buffers, with an assertion handler that throws (as the header documents): nothing is
// read, written or advanced.
struct Rejected {};
#define NYTL_BYTES_ASSERT(x) do { if(!(x)) { throw Rejected {}; } } while(0)
#include "vc.hpp"
#include <nytl/bytes.hpp>
using namespace nytl;
using std::size_t;

namespace {
#ifdef VC_NATIVE
constexpr size_t lim = 40;
#else
constexpr size_t lim = 1ull << 40;
#endif
size_t any(const char* n) {
	size_t x = vc::any<std::uint64_t>(n);
#ifdef VC_NATIVE
	x %= lim;
#endif
	REQUIRE(x < lim);
	return x;
}
struct Buf {
	std::byte* p; size_t n;
	Buf(const char* name) : n(any("size")) { p = reinterpret_cast<std::byte*>(vc_bytes(name, n)); }
};
/// f must reject exactly when expected, and leave the buffer b as it was then
template<typename B, typename F> void check(B& b, bool accepted, F f) {
	auto p = b.data(); auto n = b.size();
	bool thrown = false;
	try { f(); } catch(const Rejected&) { thrown = true; }
	ENSURE(thrown == !accepted, "rejected exactly beyond the buffer");
	ENSURE(!thrown || (b.data() == p && b.size() == n), "not advanced when rejected");
}
/// byte i of the buffer stays as it is
struct Same {
	std::byte *p, old; size_t i; bool in;
	Same(Buf& b) : p(b.p), old {}, i(any("i")), in(vc_split(i < b.n)) { if(in) old = p[i]; }
	void check() { ENSURE(!in || p[i] == old, "nothing is written"); }
};
}
HARNESS(skip_read) { Buf b("b"); ReadBuf r(b.p, b.n); size_t k = any("k"); check(r, k <= b.n, [&] { skip(r, k); }); }
HARNESS(skip_write) { Buf b("b"); WriteBuf w(b.p, b.n); size_t k = any("k"); check(w, k <= b.n, [&] { skip(w, k); }); }
HARNESS(write_bytes) {
	Buf b("b"), s("s"); WriteBuf w(b.p, b.n); Same t(b);
	bool ok = vc_split(s.n <= b.n);
	check(w, ok, [&] { write(w, ReadBuf(s.p, s.n)); });
	if(!ok) t.check();
}
HARNESS(write_object) {
	Buf b("b"); WriteBuf w(b.p, b.n); Same t(b);
	bool ok = vc_split(8 <= b.n);
	check(w, ok, [&] { write(w, vc::any<std::uint64_t>("x")); });
	if(!ok) t.check();
}
HARNESS(read_bytes) {
	Buf b("b"), d("d"); ReadBuf r(b.p, b.n); Same t(d);
	bool ok = vc_split(d.n <= b.n);
	check(r, ok, [&] { read(r, WriteBuf(d.p, d.n)); });
	if(!ok) t.check();
}
HARNESS(read_object) { Buf b("b"); ReadBuf r(b.p, b.n); check(r, b.n >= 4, [&] { (void) read<std::uint32_t>(r); }); }
HARNESS(read_reference) {
	Buf b("b"); ReadBuf r(b.p, b.n); std::uint16_t x = vc::any<std::uint16_t>("x"), old = x;
	bool ok = vc_split(b.n >= 2);
	check(r, ok, [&] { read(r, x); });
	ENSURE(ok || x == old, "nothing is written");
}
HARNESS(copy_bytes) {
	Buf b("b"), d("d"); ReadBuf r(b.p, b.n); Same t(d);
	bool ok = vc_split(d.n == b.n);
	check(r, ok, [&] { copy(r, WriteBuf(d.p, d.n)); });
	if(!ok) t.check();
}
HARNESS(copy_object) { Buf b("b"); ReadBuf r(b.p, b.n); check(r, b.n >= 4, [&] { (void) copy<std::uint32_t>(r); }); }
HARNESS(copyExact_object) { Buf b("b"); ReadBuf r(b.p, b.n); check(r, b.n == 4, [&] { (void) copyExact<std::uint32_t>(r); }); }
