// Contracts of the plain callback, proved from every state that satisfies its invariant. Handlers do not re-enter it
// (documented), but may throw. The number of handlers is the bound of these proofs.
#pragma once
#include "vc.hpp"
#include <nytl/callback.hpp>
#ifndef PROP
#error PROP
#endif

namespace plain {
constexpr unsigned P(int a) { return 1u << a; }
#define CHECK(props, cond, label) do { if constexpr(((props) & P(PROP)) != 0) { ENSURE(cond, label); } } while(0)
constexpr int MAX = 8;
struct G { std::int64_t v; int removed, alive; };
G pool[MAX]; int used;
struct GID {
	G* g {};
	GID() = default;
	GID(std::int64_t v) : g(&pool[used++]) { g->v = v; }
	void set(std::int64_t v) noexcept { if(g) g->v = v; }
	std::int64_t get() const noexcept { return g ? g->v : 0; }
	void removed() noexcept { if(g) { ++g->removed; g->v = 0; } }
};
struct Oops { int n; };
struct Val { int x; };
using Sig = int(int, Val, int&);
using Base = nytl::Callback<Sig, GID>;
using Conn = Base::Connection;
struct Cb : Base { using Base::subs_; using Base::subID_; using Base::operator=; };
Cb* cb;
int invoked, order[MAX], arg, throwsAt, result[MAX]; int* ref; bool threw;
int handler(int uid, int a, Val v, int& r) {
	CHECK(P(7), invoked < MAX && order[invoked] == uid, "handlers run once each in registration order");
	CHECK(P(4), !threw, "no handler runs after an exception");
	CHECK(P(6), a == arg && v.x == arg + 1 && &r == ref, "every handler receives the arguments of the caller");
	int k = invoked++;
	if(k == throwsAt) { threw = true; throw Oops {arg}; }
	return result[k] = vc::any<std::int32_t>("result");
}
struct Fn {
	int uid;
	Fn(int u) : uid(u) { ++pool[u].alive; }
	Fn(const Fn& o) : uid(o.uid) { ++pool[uid].alive; }
	~Fn() { --pool[uid].alive; }
	int operator()(int x, Val v, int& r) const { return handler(uid, x, v, r); }
};
int seq[MAX], len;

void arbitrary(int n) {
	vc::inflight();
	used = 0; len = 0; invoked = 0; threw = false; throwsAt = -1;
	for(auto& g : pool) g = G {};
	cb->subID_ = vc::any<std::int64_t>("subID");
	REQUIRE((cb->subID_ >= n) & (cb->subID_ < (1ll << 60)));
	cb->subs_.resize(n);
	for(int i = 0; i < n; ++i) {
		auto v = vc::any<std::int64_t>("id");
		REQUIRE((v > 0) & (v <= cb->subID_));
		if(i) REQUIRE(v > pool[i - 1].v);
		cb->subs_[i].id = GID(v);
		cb->subs_[i].func = Fn(i);
		seq[len++] = i;
	}
}
template<unsigned props> void agrees() {
	CHECK(props, (int) cb->subs_.size() == len, "exactly the expected handlers");
	for(int i = 0; i < len; ++i) {
		CHECK(props, i < (int) cb->subs_.size() && cb->subs_[i].id.g == &pool[seq[i]] && bool(cb->subs_[i].func), "exactly the expected handlers in order");
		if(i) CHECK(props, pool[seq[i]].v > pool[seq[i - 1]].v, "numbers ascend");
		CHECK(props, pool[seq[i]].v > 0 && pool[seq[i]].v <= cb->subID_, "numbers are those handed out");
	}
}
struct Before {
	std::int64_t v[MAX], subID; int removed[MAX], alive[MAX], used;
	Before() { used = plain::used; subID = cb->subID_; for(int i = 0; i < used; ++i) { v[i] = pool[i].v; removed[i] = pool[i].removed; alive[i] = pool[i].alive; } }
	template<unsigned props> void same(int but = -1) const {
		for(int i = 0; i < used; ++i) if(i != but)
			CHECK(props, pool[i].v == v[i] && pool[i].removed == removed[i] && pool[i].alive == alive[i], "other handlers are not affected");
	}
};

template<int n> void callContract() {
	{
		Cb storage; cb = &storage; arbitrary(n);
		for(int i = 0; i < n; ++i) order[i] = i;
		throwsAt = (int) vc_choose(n + 1) - 1;
		arg = vc::any<std::int32_t>("arg"); REQUIRE(arg < 1000000);
		int target = 0; ref = &target; bool caught = false;
		Before before;
		try {
			auto r = cb->call(arg, Val {arg + 1}, target);
			CHECK(P(6), (int) r.size() == n, "one result per handler");
			for(int i = 0; i < (int) r.size(); ++i) CHECK(P(6), r[i] == result[i], "results in the order of the handlers");
		} catch(const Oops& e) { caught = true; CHECK(P(4), e.n == arg, "the exception of the handler arrives"); }
		CHECK(P(4), caught == threw && threw == (throwsAt >= 0), "exactly an exception of a handler leaves the call");
		CHECK(P(7) | P(4), invoked == (throwsAt >= 0 ? throwsAt + 1 : n), "every handler runs, up to an exception");
		before.same<P(4) | P(5) | P(7)>();
		agrees<P(4) | P(7)>();
	}
	vc_noleak();
}
template<int n> void disconnectContract() {
	{
		Cb storage; cb = &storage; arbitrary(n);
		Before before;
		static G other; other.v = vc::any<std::int64_t>("which");
		GID id; id.g = &other;
		int kind = vc_choose(n + 1);
		if(kind < n) id.g = &pool[kind];
		auto wanted = id.get();
		int hit = -1;
		for(int i = 0; i < n; ++i) if(vc_split(before.v[i] == wanted)) hit = i;
		bool r = cb->disconnect(id);
		CHECK(P(7), r == (hit >= 0), "returns whether the handler was registered");
		before.same<P(5) | P(7)>(hit);
		CHECK(P(7), cb->subID_ == before.subID, "numbers are not handed out again");
		if(hit >= 0) {
			CHECK(P(5), pool[hit].v <= 0, "the handler is not registered any more");
			CHECK(P(7), pool[hit].alive == 0 && pool[hit].removed == 1, "it is released and notified once");
			int k = 0; for(int i = 0; i < n; ++i) if(i != hit) seq[k++] = i; len = k;
		}
		agrees<P(5) | P(7)>();
	}
	vc_noleak();
}
template<int n> void clearContract() {
	{
		Cb storage; cb = &storage; arbitrary(n);
		Before before;
		cb->clear();
		CHECK(P(7), cb->subID_ == before.subID, "numbers are not handed out again");
		for(int i = 0; i < n; ++i) {
			CHECK(P(5), pool[i].v <= 0, "no handler is registered any more");
			CHECK(P(7), pool[i].alive == 0 && pool[i].removed == 1, "released and notified once");
		}
		len = 0; agrees<P(5) | P(7)>();
	}
	vc_noleak();
}
template<int n> void addContract() {
	{
		Cb storage; cb = &storage; arbitrary(n);
		Before before;
		int kind = vc_choose(4), u = used; Conn c; bool threw = false;
		try {
			if(kind == 0) c = cb->add(std::function<Sig>(Fn(u)));
			else if(kind == 1) c = *cb += std::function<Sig>(Fn(u));
			else if(kind == 2) c = *cb = std::function<Sig>(Fn(u));
			else c = cb->add(std::function<Sig> {});
		} catch(const std::invalid_argument&) { threw = true; }
		CHECK(P(7), threw == (kind == 3), "adding an empty function throws");
		if(kind != 2) before.same<P(5) | P(7)>();
		else {
			for(int i = 0; i < n; ++i) {
				CHECK(P(5) | P(7), pool[i].v <= 0, "assignment replaces all handlers");
				CHECK(P(7), pool[i].alive == 0 && pool[i].removed == 1, "replaced handlers are released and notified");
			}
			len = 0;
		}
		if(threw) CHECK(P(7), cb->subID_ == before.subID && used == u, "nothing changes");
		else {
			CHECK(P(5) | P(7), c.connectable() == cb && c.id().g == &pool[u] && c.connected(), "the connection belongs to the new handler");
			CHECK(P(7), pool[u].v > before.subID && cb->subID_ >= pool[u].v, "a new number");
			CHECK(P(5) | P(7), used == u + 1 && pool[u].alive == 1 && pool[u].removed == 0, "the handler is kept");
			seq[len++] = u;
		}
		agrees<P(5) | P(7)>();
		if(!threw) {
			order[0] = u; arg = vc::any<std::int32_t>("arg"); REQUIRE(arg < 1000000); int target; ref = &target;
			cb->subs_.back().func(arg, Val {arg + 1}, target);
			CHECK(P(6) | P(7), invoked == 1, "the entry runs the handler that was added");
		}
	}
	vc_noleak();
}
template<int n> void destructorContract() {
	{ Cb storage; cb = &storage; arbitrary(n); }
	for(int i = 0; i < n; ++i) {
		CHECK(P(7), pool[i].alive == 0 && pool[i].removed == 1, "destruction releases every handler and notifies its identifier once");
		CHECK(P(5), pool[i].v <= 0, "destruction disconnects");
	}
	vc_noleak();
}
/// the identifiers provided are as the one used here: copies share the value, or hold it
inline void identifiers() {
	{
		auto a = vc::any<std::int64_t>("a"), b = vc::any<std::int64_t>("b");
		nytl::TrackedConnectionID x(a), y = x, z;
		ENSURE(x.get() == a && y.get() == a && z.get() == 0, "a tracked identifier holds its value");
		z = y; z.set(b);
		ENSURE(x.get() == b && y.get() == b, "copies of a tracked identifier share the value");
		y.removed();
		ENSURE(x.get() == 0 && y.get() == 0 && z.get() == 0, "copies see the removal");
		x.removed(); x.set(a); ENSURE(x.get() == 0 && z.get() == 0, "removal is final");
		nytl::ConnectionID p {a}, q = p;
		q.set(b); ENSURE(p.get() == a && q.get() == b, "a plain identifier is a value");
		q.removed(); ENSURE(q.get() == b && p.get() == a, "and is not notified");
		nytl::Callback<void(), nytl::TrackedConnectionID> c;
		auto conn = nytl::TrackedConnection(c, nytl::TrackedConnectionID(a));
		ENSURE(conn.connected() == (a > 0), "a connection is connected while the value is positive");
	}
	vc_noleak();
}
} // namespace plain
