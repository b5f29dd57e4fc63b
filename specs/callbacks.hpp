// Histories of callbacks against a reference model. PROP selects the obligations that are checked.
// Every history consists of actions at the top level and inside of running handlers; the choices come from vc::pick,
// so the native runtime can enumerate all of them up to a number of actions, or choose at random.
#pragma once
#include "vc.hpp"
#include <nytl/recursiveCallback.hpp>
#include <nytl/callback.hpp>
#include <vector>
#include <memory>
#include <string>
#include <functional>

#ifndef PROP
#error PROP
#endif

namespace hist {

inline void check(unsigned props, bool b, const char* label) { if(props & (1u << PROP)) ENSURE(b, label); }
constexpr unsigned P(int a) { return 1u << a; }

/// an argument that is consumed by moving from it
struct Heavy {
	int v {};
	std::unique_ptr<int> mem;
	explicit Heavy(int x) : v(x), mem(new int(x)) {}
	Heavy(const Heavy& o) : v(o.v), mem(o.mem ? new int(*o.mem) : nullptr) {}
	Heavy(Heavy&& o) noexcept : v(o.v), mem(std::move(o.mem)) { o.v = -1; }
	bool is(int x) const { return v == x && mem && *mem == x; }
};

/// an identifier that counts the notifications of its removal
struct CountID {
	struct State { std::int64_t v; int removed; };
	std::shared_ptr<State> s;
	CountID() = default;
	CountID(std::int64_t v) : s(std::make_shared<State>(State {v, 0})) {}
	void set(std::int64_t v) noexcept { if(s) s->v = v; }
	std::int64_t get() const noexcept { return s ? s->v : 0; }
	void removed() noexcept { if(s) { ++s->removed; s->v = 0; } }
};
template<typename ID> struct Kind { static constexpr bool tracked = true; };
template<> struct Kind<nytl::ConnectionID> { static constexpr bool tracked = false; };
inline int notified(const CountID& id) { return id.s ? id.s->removed : 0; }
template<typename ID> int notified(const ID&) { return -1; }

struct Oops { int n; };

template<typename Ret, typename ID, bool recursive> struct World {
	using Sig = Ret(int, Heavy, int&, const Heavy&);
	using CB = std::conditional_t<recursive, nytl::RecursiveCallback<Sig, ID>, nytl::Callback<Sig, ID>>;
	using Conn = typename CB::Connection;

	struct Alive {
		World* w; int uid;
		Alive(World* w, int u) : w(w), uid(u) { ++w->h[uid].alive; }
		Alive(const Alive& o) : w(o.w), uid(o.uid) { ++w->h[uid].alive; }
		Alive& operator=(const Alive&) = delete;
		~Alive() { --w->h[uid].alive; w->h[uid].canary = w->h[uid].alive ? w->h[uid].canary : 0; }
	};
	struct Fn {
		Alive a;
		Ret operator()(int x, Heavy hv, int& ref, const Heavy& cref) const { return a.w->run(a.uid, x, std::move(hv), ref, cref, nullptr, a); }
	};
	struct FnC {
		Alive a;
		Ret operator()(Conn c, int x, Heavy hv, int& ref, const Heavy& cref) const { return a.w->run(a.uid, x, std::move(hv), ref, cref, &c, a); }
	};
	struct Handler {
		int alive = 0, canary = 1;
		bool registered = false, pending = false;
		Conn conn, copy;
		ID id {};
		std::int64_t number = 0;
	};
	struct Frame { std::vector<int> todo; std::size_t pos = 0; int arg; int* ref; const Heavy* cref; std::vector<int> results; bool threw = false; int exception = 0; };

	std::unique_ptr<CB> cb {new CB};
	std::vector<Handler> h;
	std::vector<int> order;              // registered handlers in registration order
	std::vector<Frame*> frames;
	int budget = 0, invocations = 0, counter = 0, thrown = 0;
	unsigned afterThrow() const { return thrown ? P(4) : 0; }
	static constexpr unsigned OrderProps = recursive ? P(1) : P(7);
	static constexpr unsigned RemoveProps = recursive ? P(2) : P(7);

	World() { h.reserve(256); }

	bool depth() const { return !frames.empty(); }

	// --- the model of the operations ---
	void modelRemove(int uid) {
		auto& x = h[uid];
		x.registered = false; x.pending = depth();
		for(auto it = order.begin(); it != order.end(); ++it) if(*it == uid) { order.erase(it); break; }
	}
	void modelReturn() { if(!depth()) for(auto& x : h) x.pending = false; }

	/// the state after an operation
	void observe() {
		for(auto& x : h) {
			if constexpr(Kind<ID>::tracked) {
				check(P(5), x.conn.connected() == x.registered, "a tracked connection is connected exactly while its handler is registered");
				check(P(5), x.copy.connected() == x.registered, "copies of a connection agree");
			}
			if(recursive || !depth()) {
				bool there = x.registered || x.pending;
				check(P(3) | afterThrow(), (x.alive > 0) == there, there ? "a handler is kept while registered or running calls may use it" : "a removed handler is released");
				int n = notified(x.id);
				if(n >= 0) check(P(3) | afterThrow(), n == (there ? 0 : 1), "an identifier is notified of its removal exactly once, at release");
			}
		}
	}

	// --- operations ---
	template<typename F> void record(int uid, Conn c, F) {
		auto& x = h[uid];
		x.conn = c; x.copy = c; x.id = c.id(); x.number = c.id().get(); x.registered = true;
		order.push_back(uid);
		check(RemoveProps | P(5), c.connectable() == cb.get() && x.number > 0, "a connection belongs to the callback");
		for(int i = 0; i < (int) h.size(); ++i)
			if(i != uid) check(RemoveProps, h[i].number != x.number, "identifiers are not used again");
		observe();
	}
	void add(int kind) {
		int uid = h.size(); h.emplace_back();
		if(kind == 0) record(uid, cb->add(std::function<Sig>(Fn {{this, uid}})), 0);
		else if(kind == 1) {
			if constexpr(recursive) record(uid, cb->add(std::function<Ret(Conn, int, Heavy, int&, const Heavy&)>(FnC {{this, uid}})), 0);
			else record(uid, *cb += Fn {{this, uid}}, 0);
		} else {
			// replaces all handlers
			for(auto i : std::vector<int>(order)) modelRemove(i);
			std::function<Sig> f(Fn {{this, uid}});
			record(uid, *cb = std::move(f), 0);
		}
	}
	void addEmpty() {
		bool threw = false;
		try { cb->add(std::function<Sig> {}); }
		catch(const std::invalid_argument&) { threw = true; }
		check(RemoveProps | P(4), threw, "adding an empty function throws invalid_argument");
		observe();
	}
	void disconnect(int uid, int how) {
		bool was = h[uid].registered;
		// the id a user kept: a tracked one knows that it was removed, the plain one still has its number
		if(how == 0) {
			bool r = cb->disconnect(h[uid].id);
			check(RemoveProps, r == was, was ? "disconnecting a registered handler returns true" : "disconnecting a removed handler returns false");
		} else if constexpr(Kind<ID>::tracked) {
			auto c = h[uid].copy;
			c.disconnect();
			check(P(5), !c.connected(), "a disconnected connection is not connected");
		} else if(was) {
			auto c = h[uid].copy; c.disconnect();
			check(P(5), !c.connected(), "a disconnected connection is not connected");
		}
		if(was) modelRemove(uid);
		observe();
	}
	void clear() {
		cb->clear();
		for(auto i : std::vector<int>(order)) modelRemove(i);
		observe();
	}
	/// returns false if it threw
	void call() {
		Frame f; f.todo = order; f.arg = ++counter; int target = 0; Heavy big(f.arg + 1000), cref(f.arg);
		f.ref = &target; f.cref = &cref;
		frames.push_back(&f);
		auto mem = big.mem.get();
		try {
			if constexpr(std::is_void_v<Ret>) {
				if(counter % 2) cb->call(f.arg, big, target, cref); else (*cb)(f.arg, big, target, cref);
			} else {
				auto r = counter % 2 ? cb->call(f.arg, big, target, cref) : (*cb)(f.arg, big, target, cref);
				static_assert(std::is_same_v<decltype(r), std::vector<Ret>>);
				check(P(6), r.size() == f.results.size(), "one result per handler");
				for(std::size_t i = 0; i < r.size(); ++i) check(P(6), r[i].is(f.results[i]), "the results in the order of the handlers");
			}
		} catch(const Oops& e) {
			frames.pop_back(); modelReturn();
			check(P(4), f.threw && e.n == f.exception, "the exception of the handler reaches the caller");
			check(P(4) | P(3), target == (int) f.pos, "no later handler runs");
			observe();
			throw;
		}
		frames.pop_back(); modelReturn();
		check(P(4), !f.threw, "an exception is not swallowed");
		check(OrderProps | afterThrow(), f.pos == f.todo.size(), "every handler registered when the call began runs");
		check(P(6), target == (int) f.pos, "reference arguments refer to the object of the caller");
		check(P(6), big.mem.get() == mem && big.is(f.arg + 1000), "the object of the caller is not consumed");
		observe();
	}
	/// a call whose exception is caught
	bool callCaught() {
		try { call(); return false; }
		catch(const Oops&) { observe(); return true; }
	}

	/// the exception of a handler
	[[noreturn]] void raise() {
		frames.back()->threw = true;
		Oops e {frames.back()->exception = ++thrown};
#ifdef FLYING
		// a local object of the handler whose destructor uses the callback, while the exception is in flight
		struct Local { World* w; ~Local() { if(recursive) w->callCaught(); } } local {this};
		throw e;
#else
		throw e;
#endif
	}
	/// the body of every handler
	Ret run(int uid, int arg, Heavy hv, int& ref, const Heavy& cref, Conn* c, const Alive& self) {
		check(~0u, ++invocations < 2000, "a call ends");
		if(!depth()) { check(OrderProps, false, "a handler runs only during a call"); return result(0); }
		auto& f = *frames.back();
		bool expected = f.pos < f.todo.size() && f.todo[f.pos] == uid;
		check(OrderProps | afterThrow() | RemoveProps, expected, "handlers run exactly once, in registration order, if they were registered when the call began");
		check(P(3), h[uid].registered || h[uid].pending, "no released handler runs");
		check(P(4), !f.threw, "no later handler of that call runs");
		++f.pos; ++ref;
		check(P(6), arg == f.arg && hv.is(f.arg + 1000) && &cref == f.cref && cref.is(f.arg), "every handler receives the values given by the caller");
		check(P(6), &ref == f.ref, "reference arguments refer to the object of the caller");
		if(c) check(P(6) | P(5), c->connectable() == cb.get() && c->id().get() == h[uid].id.get(), "the connection handed to a handler is its own");
		Heavy consumed(std::move(hv));
		(void) consumed;
		// actions of this handler
		observe();
		if(recursive) while(action(c, uid)) {}
		else if(budget > 0 && vc::pick(2, "pickthrow")) { --budget; raise(); }
		else if(budget <= 0) vc::pick(1, "pickthrow");
		check(P(3), self.uid == uid && h[uid].alive > 0 && h[uid].canary == 1, "a running handler stays intact");
		// after nested calls this frame is on top again
		int r = ++counter;
		if constexpr(!std::is_void_v<Ret>) f.results.push_back(r);
		return result(r);
	}
	static Ret result(int r) { if constexpr(!std::is_void_v<Ret>) return Ret(r); }

	/// one action; false: nothing more to do here
	bool action(Conn* own, int uid) {
		int n = h.size();
		bool in = depth();
		enum { Stop, Call, Add, Disconnect };
		// stop, call, add, [own connection], throw/caught, clear, assign, add with connection, empty, disconnect by id / by connection
		int k = budget > 0 ? (int) vc::pick(8 + (n < 200 ? 2 * n : 0), "pickaction") : (int) vc::pick(1, "pickaction");
		if(k == 0) return false;
		--budget;
		vc_nontrivial();
		if(k >= 8) { k -= 8; disconnect(k / 2, k % 2); return true; }
		switch(k) {
			case 1:
				if(!in) { callCaught(); return true; }
				// an exception of an inner call passes through the enclosing handler
				try { call(); } catch(const Oops& e) { frames.back()->threw = true; frames.back()->exception = e.n; throw; }
				return true;
			case 2: add(0); return true;
			case 3: add(1); return true;
			case 4: clear(); return true;
			case 5: add(2); return true;
			case 6: // at the top level: an empty function; in a handler: throw
				if(!in) { addEmpty(); return true; }
				raise();
			case 7: // in a handler: a nested call whose exception is caught there, or the own connection
				if(in && own) { bool was = h[uid].registered; own->disconnect(); if(was) modelRemove(uid); observe(); return true; }
				callCaught(); return true;
		}
		return true;
	}

	/// the exception of an inner call passes through the enclosing handlers
	void history(int maxInitial, int random) {
		int n = vc::pick(maxInitial + 1, "pickinitial");
		budget = vc_depth(random);
		for(int i = 0; i < n; ++i) add(i == 1 ? 1 : 0);
		// a long history ends with its budget only
		bool longer = vc::pick(vc_depth(-1) < 0 ? 2 : 1, "picklong");
		while(action(nullptr, 0) || (longer && budget-- > 0)) {}
		// whatever happened: usable like a fresh one
		budget = 0;
		callCaught();
		add(0); int last = h.size() - 1;
		callCaught();
		disconnect(last, 0);
		callCaught();
		add(0);
		cb.reset();
		for(auto& x : h) { x.registered = false; x.pending = false; }
		observe();
		h.clear(); order.clear();
	}
};

/// results that cannot be default constructed
struct Res {
	int v; std::unique_ptr<int> p;
	explicit Res(int x) : v(x), p(new int(x)) {}
	Res(const Res& o) : v(o.v), p(o.p ? new int(*o.p) : nullptr) {}
	Res(Res&& o) noexcept : v(o.v), p(std::move(o.p)) { o.v = -1; }
	Res& operator=(Res o) noexcept { v = o.v; p = std::move(o.p); return *this; }
	bool is(int x) const { return v == x && p && *p == x; }
};

template<typename Ret, typename ID, bool recursive> void history(int maxInitial, int random) {
#ifdef FLYING
	// all of it while one or two other exceptions are in flight
	struct Run { int a, b; ~Run() { World<Ret, ID, recursive> w; w.history(a, b); } };
	if(vc::pick(2, "pickflying")) {
		struct Two { int a, b; ~Two() { try { Run r {a, b}; throw 2; } catch(int) {} } };
		try { Two t {maxInitial, random}; throw 1; } catch(int) {}
	} else try { Run r {maxInitial, random}; throw 1; } catch(int) {}
#else
	{ World<Ret, ID, recursive> w; w.history(maxInitial, random); }
#endif
	vc_noleak();
}

} // namespace hist
