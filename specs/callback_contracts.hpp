// Contracts of the recursive callback, proved from every state that satisfies its invariant (so by induction for every
// history at every nesting depth). A handler is only known by its rely: whatever operations it issues, directly or
// nested, the state changes as `rely` says; that every operation stays within that is the guarantee, proved below.
// PROP selects the obligations of one property. The number of handlers is the bound of these proofs.
#pragma once
#include "vc.hpp"
#include <nytl/recursiveCallback.hpp>
#ifndef PROP
#error PROP
#endif

namespace contract {
constexpr unsigned P(int a) { return 1u << a; }
#define CHECK(props, cond, label) do { if constexpr(((props) & P(PROP)) != 0) { ENSURE(cond, label); } } while(0)

constexpr int MAX = 8;
/// what is known about one handler
struct G {
	std::int64_t v;       // the value of its identifier
	int removed;          // notifications of the identifier
	int alive;            // copies of the handler object
	int runs;             // invocations by the call under verification
};
G pool[MAX]; int used;

/// an identifier whose copies share one value, as a tracked one
struct GID {
	G* g {};
	GID() = default;
	GID(std::int64_t v) : g(&pool[used++]) { g->v = v; }
	void set(std::int64_t v) noexcept { if(g) g->v = v; }
	std::int64_t get() const noexcept { return g ? g->v : 0; }
	void removed() noexcept { if(g) { ++g->removed; g->v = 0; } }
};

struct Oops { int n; };
struct Val { int x; };

using Base = nytl::RecursiveCallback<int(int, Val, int&), GID>;
using Conn = Base::Connection;
void rely();
int handler(int uid, int a, Val v, int& r);

struct Alive {
	int uid;
	Alive(int u) : uid(u) { ++pool[u].alive; }
	Alive(const Alive& o) : uid(o.uid) { ++pool[uid].alive; }
	~Alive() { --pool[uid].alive; }
};
struct Fn { Alive a; int operator()(int x, Val v, int& r) const { return handler(a.uid, x, v, r); } };
struct FnC { Alive a; int operator()(Conn c, int x, Val v, int& r) const; };

struct Cb : Base {
	using Base::subs_; using Base::last_; using Base::iterationCount_; using Base::subID_; using Base::callID_; using Base::Subscription;
	using Base::operator=;
};
Cb* cb;

/// order of the handlers in the list, as a ghost sequence of indices into the pool
int seq[MAX], len;

/// the representation agrees with the ghost sequence: nothing lost, nothing added, the end is known
template<unsigned props> void agrees() {
	int i = 0; auto last = cb->subs_.end();
	for(auto it = cb->subs_.begin(); it != cb->subs_.end(); ++it) {
		CHECK(props, i < len && it->id.g == &pool[seq[i]], "the list holds exactly the expected handlers in order");
		CHECK(props, bool(it->func), "every entry has its function");
		last = it; ++i;
	}
	CHECK(props, i == len, "no handler is lost");
	CHECK(props, len == 0 || cb->last_ == last, "the end of the list is known");
}

/// any state of the invariant with n entries
void arbitrary(int n, bool running) {
	vc::inflight();
	used = 0; len = 0;
	for(auto& g : pool) g = G {};
	cb->subID_ = vc::any<std::int64_t>("subID"); cb->callID_ = vc::any<std::int64_t>("callID");
	cb->iterationCount_ = running ? vc::any<std::uint32_t>("iterations") : 0;
	constexpr std::int64_t big = 1ll << 60;
	REQUIRE((cb->subID_ >= n) & (cb->subID_ < big) & (cb->callID_ >= 0) & (cb->callID_ < big));
	if(running) REQUIRE((cb->iterationCount_ >= 1) & (cb->iterationCount_ < (1u << 30)) & (cb->callID_ >= 1));
	auto prev = cb->subs_.before_begin();
	for(int i = 0; i < n; ++i) {
		auto v = vc::any<std::int64_t>("id");
		// registered: a number handed out before; removed during the call -v
		if(running) REQUIRE(((v > 0) & (v <= cb->subID_)) | ((v < 0) & (-v <= cb->callID_)));
		else REQUIRE((v > 0) & (v <= cb->subID_));
		for(int j = 0; j < i; ++j) REQUIRE((v < 0) | (pool[j].v != v));
		prev = cb->subs_.emplace_after(prev);
		prev->id = GID(v);
		prev->func = Fn {{i}};
		seq[len++] = i;
		cb->last_ = prev;
	}
	if(n == 0) cb->last_ = cb->subs_.end();
}

/// the effect of arbitrary operations issued by a handler while a call is running
int appended; bool mayAppend = true;
void rely() {
	auto c = vc::any<std::int64_t>("laterCallID");
	REQUIRE((c >= cb->callID_) & (c < (1ll << 60)));
	auto sub = vc::any<std::int64_t>("laterSubID");
	REQUIRE((sub >= cb->subID_) & (sub < (1ll << 60)));
	for(int i = 0; i < len; ++i) {
		auto& g = pool[seq[i]];
		auto k = vc::any<std::int64_t>("removedDuring");
		REQUIRE((k == g.v) | ((g.v > 0) & (k < 0) & (-k >= cb->callID_) & (-k <= c)));
		g.v = k;
	}
	if(mayAppend && appended < 1 && vc_choose(2)) {
		++appended;
		auto v = vc::any<std::int64_t>("addedID");
		REQUIRE(((v > cb->subID_) & (v <= sub)) | ((v < 0) & (-v >= cb->callID_) & (-v <= c)));
		int u = used;
		auto at = len ? cb->subs_.emplace_after(cb->last_) : (cb->subs_.emplace_front(), cb->subs_.begin());
		at->id = GID(v);
		at->func = Fn {{u}};
		seq[len++] = u;
		cb->last_ = at;
	}
	cb->callID_ = c; cb->subID_ = sub;
}

/// the guarantee: between two states of one running call
struct Before {
	int len, seq[MAX], used; std::int64_t v[MAX]; int removed[MAX], alive[MAX]; std::int64_t callID, subID; unsigned iterations;
	Before() {
		len = contract::len; used = contract::used;
		for(int i = 0; i < used; ++i) { seq[i] = contract::seq[i]; v[i] = pool[i].v; removed[i] = pool[i].removed; alive[i] = pool[i].alive; }
		callID = cb->callID_; subID = cb->subID_; iterations = cb->iterationCount_;
	}
	template<unsigned props> void guarantee() const {
		CHECK(props, cb->iterationCount_ == iterations, "the number of running calls is restored");
		CHECK(props, cb->callID_ >= callID && cb->subID_ >= subID, "call and handler numbers never decrease");
		for(int i = 0; i < used; ++i) {
			auto k = pool[i].v;
			CHECK(props, (k == v[i]) | ((v[i] > 0) & (k < 0) & (-k >= callID) & (-k <= cb->callID_)), "a removal during a call is marked with a running call");
			CHECK(props, pool[i].alive == alive[i] && pool[i].removed == removed[i], "no handler is released while a call is running");
		}
		for(int i = used; i < contract::used; ++i) {
			auto k = pool[i].v;
			CHECK(props, ((k > subID) & (k <= cb->subID_)) | ((k < 0) & (-k >= callID) & (-k <= cb->callID_)), "a new handler has a new number");
		}
	}
	/// nothing at all has changed but what is named
	template<unsigned props> void same(int but = -1) const {
		for(int i = 0; i < used; ++i) if(i != but) {
			CHECK(props, pool[i].v == v[i] && pool[i].removed == removed[i] && pool[i].alive == alive[i], "other handlers are not affected");
		}
	}
};

// --- one call ---
int order[MAX], invoked; int arg; int* ref; int result[MAX]; bool threw; int throwsAt;
int handler(int uid, int a, Val v, int& r) {
	CHECK(P(1), invoked < MAX && order[invoked] == uid, "the next handler is the next one registered at the start");
	CHECK(P(3), pool[uid].alive > 0, "a running handler is intact");
	CHECK(P(4), !threw, "no handler runs after an exception");
	CHECK(P(6), a == arg && v.x == arg + 1 && &r == ref, "every handler receives the arguments of the caller");
	++pool[uid].runs;
	int k = invoked++;
	CHECK(P(3), cb->iterationCount_ > 0, "a call is running");
	rely();
	CHECK(P(3), pool[uid].alive > 0, "a running handler is intact");
	if(k == throwsAt) { threw = true; throw Oops {arg}; }
	result[k] = vc::any<std::int32_t>("result");
	return result[k];
}
int FnC::operator()(Conn c, int x, Val v, int& r) const {
	CHECK(P(6) | P(5), c.connectable() == cb && c.id().g == &pool[a.uid], "the connection handed to a handler is its own");
	return handler(a.uid, x, v, r);
}

template<int n, bool running> void callContract(int maxAppend = 1) {
	{
		Cb storage; cb = &storage; appended = 1 - maxAppend; invoked = 0; threw = false; ref = nullptr;
		arbitrary(n, running);
		int expected = 0;
		std::int64_t start[MAX];
		for(int i = 0; i < n; ++i) { start[i] = pool[i].v; if(vc_split(start[i] > 0)) order[expected++] = i; }
		throwsAt = (int) vc_choose(expected + 1) - 1;
		arg = vc::any<std::int32_t>("arg"); REQUIRE(arg < 1000000);
		int target = 0; ref = &target;
		Before before;
		bool caught = false;
		try {
			auto r = cb->call(arg, Val {arg + 1}, target);
			CHECK(P(6), (int) r.size() == expected, "one result per handler that ran");
			for(int i = 0; i < (int) r.size(); ++i) CHECK(P(6), r[i] == result[i], "results in the order of the handlers");
		} catch(const Oops& e) { caught = true; CHECK(P(4), e.n == arg, "the exception of the handler arrives"); }
		CHECK(P(4), caught == threw && threw == (throwsAt >= 0), "exactly an exception of a handler leaves the call");
		CHECK(P(1) | P(4), invoked == (throwsAt >= 0 ? throwsAt + 1 : expected), "every handler registered at the start runs, up to an exception");
		for(int i = 0; i < used; ++i) CHECK(P(1), pool[i].runs <= 1, "no handler runs twice");
		CHECK(P(3) | P(4), cb->iterationCount_ == before.iterations, "the call has ended");
		if constexpr(running) {
			before.guarantee<P(1) | P(3) | P(4) | P(5)>();
			agrees<P(1) | P(3) | P(4)>();
		} else {
			// clean-up
			int k = 0, all = len;
			for(int i = 0; i < all; ++i) {
				auto& g = pool[seq[i]];
				if(vc_split(g.v > 0)) {
					CHECK(P(3) | P(4), g.alive == 1 && g.removed == 0, "registered handlers stay");
					seq[k++] = seq[i];
				} else {
					CHECK(P(3) | P(4), g.alive == 0, "removed handlers are released when the last call ends");
					CHECK(P(3), g.removed == 1, "an identifier is notified exactly once");
					CHECK(P(5), g.v <= 0, "a removed handler stays disconnected");
				}
			}
			len = k;
			agrees<P(1) | P(2) | P(3) | P(4)>();
		}
	}
	vc_noleak();
}

template<int n, bool running> void disconnectContract() {
	{
		Cb storage; cb = &storage; invoked = 0;
		arbitrary(n, running);
		Before before;
		// an identifier of an entry, of a handler that is gone, or any other number
		static G other; other.v = vc::any<std::int64_t>("which");
		GID id; id.g = &other;
		int kind = vc_choose(n + 1);
		if(kind < n) id.g = &pool[kind];
		auto wanted = id.get();
		REQUIRE((kind < n) | (wanted <= cb->subID_));
		int hit = -1;
		for(int i = 0; i < n; ++i) if(vc_split((wanted > 0) & (before.v[i] == wanted))) hit = i;
		bool r = cb->disconnect(id);
		CHECK(P(2), r == (hit >= 0), "returns whether the handler was registered");
		before.same<P(2) | P(5)>(hit);
		CHECK(P(2), cb->callID_ == before.callID && cb->subID_ == before.subID && cb->iterationCount_ == before.iterations, "nothing else changes");
		if constexpr(running) before.guarantee<P(1) | P(2) | P(3)>();
		if(hit >= 0) {
			CHECK(P(2) | P(5), pool[hit].v <= 0, "the handler is not registered any more");
			if(running) CHECK(P(1) | P(3), pool[hit].v == -before.callID && pool[hit].alive == 1 && pool[hit].removed == 0, "its release waits for the running calls");
			else CHECK(P(3), pool[hit].alive == 0 && pool[hit].removed == 1, "it is released at once and notified once");
			if(!running) { int k = 0; for(int i = 0; i < n; ++i) if(i != hit) seq[k++] = i; len = k; }
		}
		agrees<P(1) | P(2) | P(3)>();
	}
	vc_noleak();
}

template<int n, bool running> void clearContract() {
	{
		Cb storage; cb = &storage; invoked = 0;
		arbitrary(n, running);
		Before before;
		cb->clear();
		CHECK(P(2), cb->callID_ == before.callID && cb->subID_ == before.subID && cb->iterationCount_ == before.iterations, "nothing else changes");
		for(int i = 0; i < n; ++i) {
			CHECK(P(2) | P(5), pool[i].v <= 0, "no handler is registered any more");
			if(running) {
				CHECK(P(1), before.v[i] > 0 ? pool[i].v == -before.callID : pool[i].v == before.v[i], "removals are marked with the running call, earlier ones stay");
				CHECK(P(3), pool[i].alive == 1 && pool[i].removed == 0, "the release waits for the running calls");
			} else CHECK(P(3), pool[i].alive == 0 && pool[i].removed == 1, "released at once and notified once");
		}
		if constexpr(running) before.guarantee<P(1) | P(2) | P(3)>();
		else len = 0;
		agrees<P(1) | P(2) | P(3)>();
	}
	vc_noleak();
}

/// kind: 0 plain, 1 with its connection, 2 an empty function, 3 an empty function with connection, 4 assignment, 5 +=
template<int n, bool running> void addContract() {
	{
		Cb storage; cb = &storage; invoked = 0;
		arbitrary(n, running);
		Before before;
		int kind = vc_choose(6), u = used; Conn c;
		bool threw = false;
		try {
			if(kind == 0) c = cb->add(std::function<int(int, Val, int&)>(Fn {{u}}));
			else if(kind == 1) c = cb->add(std::function<int(Conn, int, Val, int&)>(FnC {{u}}));
			else if(kind == 2) c = cb->add(std::function<int(int, Val, int&)> {});
			else if(kind == 3) c = cb->add(std::function<int(Conn, int, Val, int&)> {});
			else if(kind == 4) c = *cb = std::function<int(int, Val, int&)>(Fn {{u}});
			else c = *cb += std::function<int(int, Val, int&)>(Fn {{u}});
		} catch(const std::invalid_argument&) { threw = true; }
		CHECK(P(2), threw == (kind == 2 || kind == 3), "adding an empty function throws");
		CHECK(P(2), cb->callID_ == before.callID && cb->iterationCount_ == before.iterations, "nothing else changes");
		if(kind != 4) before.same<P(2) | P(3) | P(5)>();
		else for(int i = 0; i < n; ++i) {
			CHECK(P(2) | P(5), pool[i].v <= 0, "assignment replaces all handlers");
			if(!running) CHECK(P(3), pool[i].alive == 0 && pool[i].removed == 1, "replaced handlers are released and notified");
		}
		if(kind == 4 && !running) len = 0;
		if(threw) CHECK(P(2), cb->subID_ == before.subID && used == u, "nothing changes");
		else {
			CHECK(P(2) | P(5), c.connectable() == cb && c.id().g == &pool[u] && c.connected(), "the connection belongs to the new handler");
			CHECK(P(1) | P(2), pool[u].v > before.subID && cb->subID_ >= pool[u].v, "a new number");
			CHECK(P(3), used == u + 1 && pool[u].alive == 1 && pool[u].removed == 0, "the handler is kept");
			seq[len++] = u;
		}
		if constexpr(running) before.guarantee<P(1) | P(2) | P(3)>();
		agrees<P(1) | P(2) | P(3)>();
		if(!threw) {
			// what was stored is the function: it gets the arguments of the caller
			mayAppend = false; invoked = 0; order[0] = u; arg = vc::any<std::int32_t>("arg"); REQUIRE(arg < 1000000); int target; ref = &target; throwsAt = -1; contract::threw = false;
			cb->iterationCount_ = 1;
			cb->last_->func(arg, Val {arg + 1}, target);
			cb->iterationCount_ = 0;
			CHECK(P(1) | P(6), invoked == 1, "the entry runs the handler that was added");
		}
	}
	vc_noleak();
}

template<int n> void destructorContract() {
	{
		Cb storage; cb = &storage; invoked = 0;
		arbitrary(n, false);
	}
	for(int i = 0; i < n; ++i) {
		CHECK(P(3), pool[i].alive == 0 && pool[i].removed == 1, "destruction releases every handler and notifies its identifier once");
		CHECK(P(5), pool[i].v <= 0, "destruction disconnects");
	}
	vc_noleak();
}

/// whatever sequence of operations a handler issues is again within the rely
inline void transitive() {
	{
		Cb storage; cb = &storage; invoked = 0;
		arbitrary(2, true);
		Before before; appended = 0; mayAppend = true;
		rely(); appended = 0; rely();
		before.guarantee<P(1) | P(3) | P(4)>();
		agrees<P(1) | P(3) | P(4)>();
	}
	vc_noleak();
}
} // namespace contract
