// Contracts of the plain callback for any number of handlers, over assumed contracts of the members of
// std::vector<Subscription> and of std::equal_range that it uses (vx_...). Handler k of N is one real element, all
// others are addresses nobody may touch. The members' own code is run, bounded, by plain_contracts.hpp.
#pragma once
#include "vc.hpp"
#include <new>
#include <nytl/callback.hpp>
#ifndef PROP
#error PROP
#endif

namespace vectors {
constexpr unsigned P(int a) { return 1u << a; }
#define CHECK(props, cond, label) do { if constexpr(((props) & P(PROP)) != 0) { ENSURE(cond, label); } } while(0)
using i64 = std::int64_t; using u64 = std::uint64_t;
constexpr int MAX = 8;
struct G { i64 v, start; int removed, alive; };
G pool[MAX]; int used;
struct GID {
	G* g {};
	GID() = default;
	GID(i64 v) : g(&pool[used++]) { g->v = v; }
	void set(i64 v) noexcept { if(g) g->v = v; }
	i64 get() const noexcept { return g ? g->v : 0; }
	void removed() noexcept { if(g) { ++g->removed; g->v = 0; } }
};
struct Oops { int n; };
struct Val { int x; };
#ifndef RET
#define RET int
#endif
using Sig = RET(int, Val, int&);
using Base = nytl::Callback<Sig, GID>;
using Conn = Base::Connection;
struct Cb : Base { using Base::subs_; using Base::subID_; using Base::operator=; using Base::Subscription; };
using Sub = Cb::Subscription;
Cb* cb;
u64 N, k; Sub *S, *E, *cur, *curEnd; G* curG;
struct Rep { Sub *start, *finish, *end; };
Rep& rep() { return reinterpret_cast<Rep&>(cb->subs_); }

RET handler(int uid, int a, Val v, int& r);
struct Fn {
	int uid;
	Fn(int u) : uid(u) { ++pool[u].alive; }
	Fn(const Fn& o) : uid(o.uid) { ++pool[uid].alive; }
	~Fn() { --pool[uid].alive; }
	RET operator()(int x, Val v, int& r) const { return handler(uid, x, v, r); }
};
/// an element with an identifier of any value the invariant allows
Sub* make(int u = -1) {
	auto v = vc::any<i64>("id");
	REQUIRE((v > 0) & (v <= cb->subID_));
	if(u < 0) u = used++;
	auto* s = new(::operator new(sizeof(Sub))) Sub {};
	pool[u] = G {}; s->id.g = &pool[u]; pool[u].v = pool[u].start = v;
	s->func = Fn(u);
	return s;
}
void arbitrary() {
	vc::inflight();
	used = 0; cur = nullptr; curG = nullptr; k = 0;
	for(auto& g : pool) g = G {};
	cb->subID_ = vc::any<i64>("subID"); N = vc::any<u64>("N");
	REQUIRE((N < (1ull << 40)) & (cb->subID_ >= (i64) N) & (cb->subID_ < (1ll << 60)));
	S = E = nullptr;
	if(vc_choose(2)) S = E = static_cast<Sub*>(vc_opaque("storage"));
	if(vc_split(N > 0)) { S = static_cast<Sub*>(vc_opaque("elements")); E = static_cast<Sub*>(vc_opaque("end")); }
	rep() = {S, E, static_cast<Sub*>(vc_opaque("capacity"))};
}
struct Alloc {
	alignas(Cb) char mem[sizeof(Cb)];
	Alloc() { cb = new (mem) Cb; }
};
bool unchanged() { return rep().start == S && rep().finish == E; }
template<unsigned props> void untouched(G& g) { CHECK(props, g.v == g.start && g.alive == 1 && g.removed == 0, "other handlers are not affected"); }
/// the state of a loop at element k
bool enter(Sub** b, Sub** e) {
	k = vc::any<u64>("k"); REQUIRE(k <= N);
	if(vc_split(k == N)) { *b = E; cur = nullptr; return false; }
	cur = make(); curG = cur->id.g;
	curEnd = vc_split(k + 1 == N) ? cur + 1 : static_cast<Sub*>(vc_opaque("end"));
	*b = cur; rep().finish = curEnd;
	if(e) *e = curEnd;
	return true;
}
void goesOn(Sub** b, Sub** e) { CHECK(P(4) | P(5) | P(6) | P(7), *b == cur + 1 && (!e || *e == curEnd) && rep().start == S && rep().finish == curEnd, "goes on with the next handler"); }

// ---------------------------------------------------------------- call
int arg; int* ref; bool threw, throws, ran, looped; u64 results; std::int32_t result; u64 some, ranSome;
RET handler(int uid, int a, Val v, int& r) {
	CHECK(P(7), cur && curG == &pool[uid] && !ran, "handlers run once each in registration order");
	CHECK(P(4), !threw, "no handler runs after an exception");
	CHECK(P(6), a == arg && v.x == arg + 1 && &r == ref, "every handler receives the arguments of the caller");
	ran = true;
	if(k == some) ++ranSome;
	if(throws && vc_choose(2)) { threw = true; throw Oops {arg}; }
	result = vc::any<std::int32_t>("result");
	return RET(result);
}
void callLoop(int phase, Sub** b, Sub** e) {
	if(phase == 0) {
		CHECK(P(4) | P(7), *b == S && (!e || *e == E) && !looped, "begins with the first handler and visits all");
		CHECK(P(6) | P(7), ranSome == 0 && results == 0, "nothing has run");
		looped = true; ran = false;
		if(N > 0) {
			enter(b, e);
			ranSome = some < k ? 1 : 0;
			results = k;
		}
		return;
	}
	goesOn(b, e);
	CHECK(P(7), ran && ranSome == (some <= k ? 1 : 0), "each handler once so far");
	if(!std::is_void_v<RET>) CHECK(P(6), results == k + 1, "one result per handler");
	untouched<P(4) | P(5) | P(7)>(*curG);
}
void pushed(void*, const std::int32_t* v) {
	CHECK(P(6), ran && *v == result, "the result of the handler that has just run is appended");
	++results;
}
void callContract() {
	Alloc a; arbitrary();
	auto id0 = cb->subID_;
	threw = ran = looped = false; results = 0; ranSome = 0; throws = vc_choose(2);
	some = vc::any<u64>("some"); REQUIRE((some < N) | (N == 0));
	arg = vc::any<std::int32_t>("arg"); REQUIRE(arg < 1000000);
	int target = 0; ref = &target; bool caught = false;
	try {
		cb->call(arg, Val {arg + 1}, target);
		CHECK(P(7), looped && (N == 0 || k == N), "every handler is visited");
		CHECK(P(7), N == 0 || ranSome == 1, "every handler runs exactly once");
		if(!std::is_void_v<RET>) CHECK(P(6), results == N, "one result per handler");
	} catch(const Oops& e) { caught = true; CHECK(P(4), e.n == arg, "the exception of the handler arrives"); }
	CHECK(P(4), caught == threw, "exactly an exception of a handler leaves the call");
	if(curG && cur) { CHECK(P(4) | P(7), rep().finish == curEnd, "the call changes nothing"); rep().finish = E; }
	CHECK(P(4) | P(7), unchanged() && cb->subID_ == id0, "the call changes nothing");
	if(curG) untouched<P(4) | P(5) | P(7)>(*curG);
}

// ---------------------------------------------------------------- clear, destruction
bool cleared, destroyed, released;
void clearLoop(int phase, Sub** b, Sub** e) {
	if(phase == 0) {
		CHECK(P(5) | P(7), *b == S && (!e || *e == E) && !looped && !cleared, "begins with the first handler and visits all");
		looped = true;
		if(N > 0) enter(b, e);
		return;
	}
	goesOn(b, e);
	CHECK(P(5), curG->v <= 0, "no handler is registered any more");
	CHECK(P(7), curG->removed == 1 && curG->alive == 1, "notified once");
}
/// std::vector::clear, as an assumed contract: destroys every element
void vectorClear(void* v) {
	CHECK(P(5) | P(7), v == &cb->subs_ && unchanged() && looped && (N == 0 || k == N), "all handlers are released, after they were notified");
	cleared = true; rep().finish = rep().start; S = E = rep().start; N = 0;
}
void vectorDestroy(void* v) {
	CHECK(P(7), v == &cb->subs_ && unchanged(), "all handlers are released");
	destroyed = true;
}
void clearContract() {
	Alloc a; arbitrary();
	auto id0 = cb->subID_; auto n0 = N; looped = cleared = false;
	cb->clear();
	CHECK(P(5) | P(7), cleared && looped && (n0 == 0 || k == n0), "every handler is notified and released");
	CHECK(P(7), unchanged() && cb->subID_ == id0, "numbers are not handed out again");
}
void destructorContract() {
	Alloc a; arbitrary(); looped = cleared = destroyed = false;
	cb->~Cb();
	CHECK(P(5) | P(7), looped && (cleared || N == 0 || k == N), "every handler is notified");
	CHECK(P(7), destroyed, "and released");
}
/// what the members of std::vector do to a handler they release
inline void releaseContract() {
	Alloc a; arbitrary();
	auto* s = make(); auto& g = *s->id.g;
	s->~Sub();
	CHECK(P(5) | P(7), g.alive == 0 && g.removed == 0 && g.v == g.start, "releasing an entry releases its function once");
}

// ---------------------------------------------------------------- add
Sub* made;
/// std::vector::emplace_back, as an assumed contract: a value initialised element at the end, or one made from the
/// argument; the others stay
Sub* emplaced(void* v, Sub* element) {
	CHECK(P(5) | P(7), v == &cb->subs_ && unchanged() && !made, "one entry is added at the end");
	made = element;
	if(S == E) S = made;
	E = made + 1;
	rep() = {S, E, static_cast<Sub*>(vc_opaque("capacity"))};
	return made;
}
Sub* vectorEmplace(void* v) { return emplaced(v, new(::operator new(sizeof(Sub))) Sub {}); }
Sub* vectorEmplaceMove(void* v, Sub* from) { return emplaced(v, new(::operator new(sizeof(Sub))) Sub(std::move(*from))); }
Sub* vectorEmplaceCopy(void* v, const Sub* from) { return emplaced(v, new(::operator new(sizeof(Sub))) Sub(*from)); }
void addContract() {
	Alloc a; arbitrary();
	auto id0 = cb->subID_; auto n0 = N; looped = cleared = false; made = nullptr;
	int kind = vc_choose(4); Conn c; bool thrown = false; used = 4; int u = 4;
	try {
		if(kind == 0) c = cb->add(std::function<Sig>(Fn(u)));
		else if(kind == 1) c = *cb += std::function<Sig>(Fn(u));
		else if(kind == 2) c = *cb = std::function<Sig>(Fn(u));
		else c = cb->add(std::function<Sig> {});
	} catch(const std::invalid_argument&) { thrown = true; }
	CHECK(P(7), thrown == (kind == 3), "adding an empty function throws");
	CHECK(P(5) | P(7), cleared == (kind == 2) && (kind != 2 || n0 == 0 || k == n0), "assignment replaces all handlers");
	if(thrown) { CHECK(P(7), cb->subID_ == id0 && used == u && !made && unchanged(), "nothing changes"); return; }
	CHECK(P(5) | P(7), made && unchanged() && made->id.g == &pool[u], "the new handler is the last one");
	CHECK(P(5) | P(7), c.connectable() == cb && c.id().g == &pool[u] && c.connected(), "the connection belongs to the new handler");
	CHECK(P(7), pool[u].v > id0 && cb->subID_ >= pool[u].v, "a new number");
	CHECK(P(5) | P(7), used == u + 1 && pool[u].alive == 1 && pool[u].removed == 0, "the handler is kept");
	cur = made; curG = made->id.g; ran = threw = throws = false; k = 0; some = 1; ranSome = 0;
	arg = vc::any<std::int32_t>("arg"); REQUIRE(arg < 1000000); int target; ref = &target;
	made->func(arg, Val {arg + 1}, target);
	CHECK(P(6) | P(7), ran, "the entry runs the handler that was added");
}

// ---------------------------------------------------------------- disconnect
i64 wanted; bool present, erased, ranged; Sub* where; G* next;
struct Range { Sub *a, *b; };
/// std::equal_range over the handlers ordered by number, as an assumed contract
Range equalRange(Sub* b, Sub* e, const Sub& value) {
	CHECK(P(5) | P(7), b == S && e == E && value.id.get() == wanted && !ranged, "all handlers are searched for the number");
	ranged = true;
	if(!present) { where = vc_choose(2) ? E : static_cast<Sub*>(vc_opaque("between")); return {where, where}; }
	return {where, where + 1};
}
/// std::lower_bound over the handlers ordered by number, as an assumed contract
Sub* lowerBound(Sub* b, Sub* e, const Sub& value) {
	CHECK(P(5) | P(7), b == S && e == E && value.id.get() == wanted && !ranged, "all handlers are searched for the number");
	ranged = true;
	if(!present) {
		where = E;
		if(N > 0 && vc_choose(2)) { where = make(); next = where->id.g; REQUIRE(next->v > wanted); }
	}
	return where;
}
/// std::vector::erase, as an assumed contract: destroys the element, the others stay in their order
Sub* vectorErase(void* v, Sub* pos) {
	CHECK(P(5) | P(7), v == &cb->subs_ && present && pos == where && !erased && unchanged(), "exactly the handler found is released");
	erased = true;
	pos->~Sub(); ::operator delete(static_cast<void*>(pos));
	return static_cast<Sub*>(vc_opaque("after"));
}
void disconnectContract() {
	Alloc a; arbitrary();
	auto id0 = cb->subID_;
	static G other; other.v = wanted = vc::any<i64>("which");
	present = vc_choose(2); erased = ranged = false; where = nullptr; next = nullptr;
	REQUIRE(!present | (N > 0));
	GID id; id.g = &other;
	if(present) { where = make(); curG = where->id.g; REQUIRE(curG->v == wanted); if(vc_choose(2)) id.g = curG; }
	bool r = cb->disconnect(id);
	CHECK(P(7), r == present && erased == present, "returns whether the handler was registered, and removes it");
	CHECK(P(7), cb->subID_ == id0, "numbers are not handed out again");
	if(present) {
		CHECK(P(5), curG->v <= 0, "the handler is not registered any more");
		CHECK(P(7), curG->alive == 0 && curG->removed == 1, "it is released and notified once");
	} else CHECK(P(7), unchanged(), "nothing changes");
	if(next) untouched<P(5) | P(7)>(*next);
}
} // namespace vectors

extern "C" {
void vx_call(int phase, vectors::Sub** b, vectors::Sub** e) { vectors::callLoop(phase, b, e); }
void vx_notify(int phase, vectors::Sub** b, vectors::Sub** e) { vectors::clearLoop(phase, b, e); }
void vx_pushed(void* v, const std::int32_t* x) { vectors::pushed(v, x); }
vectors::u64 vx_size() { return vectors::N; }
void vx_clear(void* v) { vectors::vectorClear(v); }
void vx_destroy(void* v) { vectors::vectorDestroy(v); }
vectors::Sub* vx_emplace(void* v) { return vectors::vectorEmplace(v); }
vectors::Sub* vx_emplace_move(void* v, vectors::Sub* from) { return vectors::vectorEmplaceMove(v, from); }
vectors::Sub* vx_emplace_copy(void* v, const vectors::Sub* from) { return vectors::vectorEmplaceCopy(v, from); }
vectors::Range vx_range(vectors::Sub* b, vectors::Sub* e, const vectors::Sub& value) { return vectors::equalRange(b, e, value); }
vectors::Sub* vx_lower(vectors::Sub* b, vectors::Sub* e, const vectors::Sub& value) { return vectors::lowerBound(b, e, value); }
vectors::Sub* vx_erase(void* v, vectors::Sub* pos) { return vectors::vectorErase(v, pos); }
}
