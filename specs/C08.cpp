// C08: connection objects. Every operation is specified from an arbitrary state, so the contracts
// compose to any history of operations.
#include "vc.hpp"
#include <nytl/connection.hpp>
using namespace nytl;

namespace {
struct Err : std::exception { const char* what() const noexcept override { return "expected"; } };
struct Err2 : std::exception { int v = 2; const char* what() const noexcept override { return "other"; } };

enum Mode { yes, no, throws, throws2, removes, nModes };
template<typename ID> struct Mock : ConnectableT<ID> {
	int calls = 0; std::int64_t id = 0; Mode mode = yes;
	bool disconnect(const ID& i) override {
		++calls; id = i.get();
		if(mode == throws) throw Err();
		if(mode == throws2) throw Err2();
		if(mode == removes) { ID copy = i; copy.removed(); }
		return mode != no;
	}
};
template<typename ID> ID make(std::int64_t v) { return ID {v}; }
struct Plain { using ID = ConnectionID; using C = Connection; using U = UniqueConnection; using T = Connectable; static constexpr bool shared = false; };
struct Tracked { using ID = TrackedConnectionID; using C = TrackedConnection; using U = TrackedUniqueConnection; using T = TrackedConnectable; static constexpr bool shared = true; };

/// two connectables and an arbitrary connection: empty or to one of them with any id
template<typename K> struct World {
	Mock<typename K::ID> a, b;
	World() { a.mode = b.mode = (Mode) vc::pick(nModes, "pickmode"); }
	Mock<typename K::ID>* some(const char* n) { auto k = vc::pick(3, n); return k == 0 ? nullptr : k == 1 ? &a : &b; }
	int total() { return a.calls + b.calls; }
	/// exactly m was asked to disconnect id, once
	bool only(Mock<typename K::ID>* m, std::int64_t id) { return total() == 1 && m && m->calls == 1 && m->id == id; }
};
template<typename K, typename X> X make(Mock<typename K::ID>* m, std::int64_t v) {
	if(!m) return X {};
	return X {*m, make<typename K::ID>(v)};
}
template<typename X> bool empty(const X& x) { return x.connectable() == nullptr && x.id().get() == 0 && !x.connected(); }
template<typename X, typename M> bool holds(const X& x, M* m, std::int64_t v) {
	return x.connectable() == m && x.id().get() == (m ? v : 0) && x.connected() == (m && v > 0);
}

template<typename K> void basic() {
	World<K> w; auto* m = w.some("pickc"); auto v = vc::any<std::int64_t>("id");
	bool again = vc::pick(2, "pickagain");
	auto c = make<K, typename K::C>(m, v);
	ENSURE(holds(c, m, v), "a connection reports what it was made from");
	auto copy = c; typename K::C assigned; assigned = c;
	ENSURE(holds(copy, m, v) && holds(assigned, m, v) && holds(c, m, v), "copies report the same");
	ENSURE(w.total() == 0, "copying disconnects nothing");
	bool threw = false;
	try { c.disconnect(); } catch(const Err&) { threw = true; } catch(const Err2&) { threw = true; }
	ENSURE(threw == (m && (w.a.mode == throws || w.a.mode == throws2)), "errors reach the caller");
	if(m) ENSURE(w.only(m, v), "disconnect asks its own connectable for its own id");
	else ENSURE(w.total() == 0, "an empty connection disconnects nothing");
	if(!threw) {
		ENSURE(empty(c), "empty afterwards");
		if(again) c.disconnect();
		ENSURE(w.total() == (m ? 1 : 0) && empty(c), "disconnected at most once");
	}
	ENSURE(copy.connectable() == m, "copies keep their connectable");
	if(m) ENSURE(copy.id().get() == (K::shared && w.a.mode == removes ? 0 : v), "copies observe a removal exactly if ids are shared");
	ENSURE(copy.connected() == (copy.connectable() && copy.id().get() > 0), "connected means connectable and positive id");
}
template<typename K> void basicDtor() {
	World<K> w; auto* m = w.some("pickc"); auto v = vc::any<std::int64_t>("id");
	{ auto c = make<K, typename K::C>(m, v); auto d = c; }
	ENSURE(w.total() == 0, "a plain connection does not own its connection");
}
template<typename K> void unique(typename K::U& u, World<K>& w, Mock<typename K::ID>* m, std::int64_t v, const char* what) {
	if(m && v > 0) ENSURE(w.only(m, v), what);
	else ENSURE(w.total() == 0, what);
}
template<typename K> void destroy() {
	World<K> w; auto* m = w.some("pickc"); auto v = vc::any<std::int64_t>("id");
	bool viaConnection = vc::pick(2, "pickvia");
	{
		typename K::U u;
		ENSURE(empty(u), "default unique connection is empty");
	}
	if(viaConnection) { typename K::U u {make<K, typename K::C>(m, v)}; ENSURE(holds(u, m, v), "takes connectable and id"); ENSURE(w.total() == 0, "not disconnected early"); }
	else { auto u = make<K, typename K::U>(m, v); ENSURE(holds(u, m, v), "reports what it was made from"); ENSURE(w.total() == 0, "not disconnected early"); }
	if(m && v > 0) ENSURE(w.only(m, v), "destruction disconnects the owned connection exactly once");
	else ENSURE(w.total() == 0, "destruction of an empty one disconnects nothing");
}
template<typename K> void explicitly() {
	World<K> w; auto* m = w.some("pickc"); auto v = vc::any<std::int64_t>("id");
	bool again = vc::pick(2, "pickagain");
	bool throwing = w.a.mode == throws || w.a.mode == throws2;
	{
		auto u = make<K, typename K::U>(m, v);
		bool threw = false;
		try { u.disconnect(); } catch(const Err&) { threw = true; } catch(const Err2&) { threw = true; }
		ENSURE(threw == (m && v > 0 && throwing), "errors reach the caller");
		if(m && v > 0) ENSURE(w.only(m, v), "disconnect asks its own connectable for its own id");
		else ENSURE(w.total() == 0, "disconnect of an empty one does nothing");
		if(threw) return;
		ENSURE(empty(u), "empty afterwards");
		if(again) u.disconnect();
		ENSURE(empty(u), "still empty");
	}
	ENSURE(w.total() == (m && v > 0 ? 1 : 0), "disconnected exactly once");
}
template<typename K> void moved() {
	World<K> w; auto* m = w.some("pickc"); auto v = vc::any<std::int64_t>("id");
	auto s = make<K, typename K::U>(m, v);
	{
		typename K::U d {std::move(s)};
		ENSURE(holds(d, m, v), "moving transfers connectable and id");
		ENSURE(empty(s), "the source is empty");
		ENSURE(w.total() == 0, "moving disconnects nothing");
	}
	if(m && v > 0) ENSURE(w.only(m, v), "the target owns the connection");
	else ENSURE(w.total() == 0, "nothing to disconnect");
	int before = w.total();
	s = {};
	ENSURE(w.total() == before, "the source owns nothing any more");
}
template<typename K> void assigned() {
	World<K> w; auto* m = w.some("pickc"); auto v = vc::any<std::int64_t>("id");
	auto* n = w.some("pickd"); auto x = vc::any<std::int64_t>("id2");
	{
		auto s = make<K, typename K::U>(n, x);
		{
			auto d = make<K, typename K::U>(m, v);
			d = std::move(s);
			if(m && v > 0) ENSURE(w.only(m, v), "overwriting disconnects the old connection exactly once");
			else ENSURE(w.total() == 0, "nothing to disconnect");
			ENSURE(holds(d, n, x), "assignment transfers connectable and id");
			ENSURE(empty(s), "the source is empty");
			w.a.calls = w.b.calls = 0;
		}
		if(n && x > 0) ENSURE(w.only(n, x), "the target owns the new connection");
		else ENSURE(w.total() == 0, "nothing to disconnect");
		w.a.calls = w.b.calls = 0;
	}
	ENSURE(w.total() == 0, "the source owns nothing any more");
}
template<typename K> void selfAssigned() {
	World<K> w; auto* m = w.some("pickc"); auto v = vc::any<std::int64_t>("id");
	{
		auto d = make<K, typename K::U>(m, v);
		auto& r = d;
		d = std::move(r);
		ENSURE(w.total() <= 1, "not disconnected twice");
	}
	if(m && v > 0) ENSURE(w.only(m, v), "self assignment: disconnected exactly once in the end");
	else ENSURE(w.total() == 0, "nothing to disconnect");
}
template<typename K> void released() {
	World<K> w; auto* m = w.some("pickc"); auto v = vc::any<std::int64_t>("id");
	{
		auto u = make<K, typename K::U>(m, v);
		auto c = u.release();
		ENSURE(holds(c, m, v), "release hands out connectable and id");
		ENSURE(empty(u), "empty after release");
		auto c2 = u.release();
		ENSURE(empty(c2), "nothing left to release");
	}
	ENSURE(w.total() == 0, "a released connection stays connected");
}
template<typename K> void roundtrip() {
	World<K> w; auto* m = w.some("pickc"); auto v = vc::any<std::int64_t>("id");
	{
		auto u = make<K, typename K::U>(m, v);
		typename K::U x {u.release()};
		typename K::U y; y = std::move(x);
		typename K::U z {std::move(y)};
		ENSURE(holds(z, m, v) && empty(u) && empty(x) && empty(y), "the duty moves along");
		ENSURE(w.total() == 0, "nothing disconnected on the way");
	}
	if(m && v > 0) ENSURE(w.only(m, v), "disconnected exactly once");
	else ENSURE(w.total() == 0, "nothing to disconnect");
}
}
#define BOTH(f) HARNESS(plain_##f) { f<Plain>(); } HARNESS(tracked_##f) { f<Tracked>(); vc_noleak(); }
BOTH(basic) BOTH(basicDtor) BOTH(destroy) BOTH(explicitly) BOTH(moved) BOTH(assigned) BOTH(selfAssigned) BOTH(released) BOTH(roundtrip)

/// removal elsewhere: the shared id tells every copy and the owner
HARNESS(tracked_removedElsewhere) {
	World<Tracked> w; auto* m = &w.a; auto v = vc::any<std::int64_t>("id");
	bool overwrite = vc::pick(2, "pickoverwrite");
	{
		TrackedConnectionID id {v};
		TrackedConnection c {*m, id}, copy {c};
		TrackedUniqueConnection u {*m, id};
		ENSURE(c.connected() == (v > 0) && u.connected() == (v > 0), "connected before");
		id.removed();
		ENSURE(!c.connected() && !copy.connected() && !u.connected(), "every connection sees the removal");
		ENSURE(c.id().get() == 0 && copy.id().get() == 0 && u.id().get() == 0 && id.get() == 0, "id zero");
		if(overwrite) u = {};
	}
	ENSURE(w.total() == 0, "a removed connection is not disconnected again");
	vc_noleak();
}
HARNESS(tracked_set) {
	auto v = vc::any<std::int64_t>("id"); auto x = vc::any<std::int64_t>("id2");
	{
		TrackedConnectionID id {v}, other {v}, none;
		auto copy = id;
		ENSURE(none.get() == 0, "empty id");
		none.set(x); none.removed();
		ENSURE(none.get() == 0, "an empty id stays empty");
		copy.set(x);
		ENSURE(id.get() == x && copy.get() == x && other.get() == v, "shared between copies only");
		copy.removed();
		ENSURE(id.get() == 0 && copy.get() == 0 && other.get() == v, "shared removal");
	}
	ConnectionID a {v}; auto b = a;
	b.set(x);
	ENSURE(a.get() == v && b.get() == x, "plain ids are values");
	b.removed();
	ENSURE(b.get() == x, "plain ids do not observe removal");
	vc_noleak();
}
