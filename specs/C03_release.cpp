// A handler may own something that uses the callback when it is destroyed (a connection to another handler, say): the
// release of a handler is the last thing a removal does.
// vc-mode: native
#include "vc.hpp"
#include <nytl/recursiveCallback.hpp>
#include <nytl/connection.hpp>

namespace {
constexpr int MAX = 6;
template<typename ID> struct World {
	using Cb = nytl::RecursiveCallback<void(), ID>;
	using Conn = typename Cb::Connection;
	struct Fn {
		World* w; int i;
		Fn(World* w, int i) : w(w), i(i) { ++w->alive[i]; }
		Fn(const Fn& o) : w(o.w), i(o.i) { ++w->alive[i]; }
		~Fn() { if(--w->alive[i] == 0) w->released(i); }
		void operator()() const { w->run(i); }
	};
	int alive[MAX] {}; bool registered[MAX] {};
	Conn conns[MAX] {};
	int n {}, depth {};                         // depth: of running handlers
	int owner = -1, act {}, target {};          // the handler whose destructor does something
	int remover = -1, how {}, also = -1;        // what a handler does during the call
	int order[MAX + 1] {}, ran {};
	Cb* cb;

	void add() { if(n == MAX) return; int i = n++; registered[i] = true; conns[i] = cb->add(Fn(this, i)); }
	void disconnect(int i) {
		if(i >= n) return;
		bool r = registered[i]; registered[i] = false;
		ENSURE(cb->disconnect(conns[i].id()) == r, "disconnect tells whether the handler was registered");
		ENSURE(!r || depth > 0 || alive[i] == 0, "released at once outside of calls");
	}
	void clear() { for(auto& r : registered) r = false; cb->clear(); }
	void released(int i) {
		ENSURE(depth == 0, "nothing is released while a call is running");
		ENSURE(!registered[i], "only removed handlers are released");
		if(i != owner) return;
		owner = -1;
		if(act == 0) disconnect(target);
		else if(act == 1) add();
		else if(act == 2) clear();
		else call();
	}
	void run(int i) {
		ENSURE(ran < MAX, "each handler runs once");
		ENSURE(alive[i] > 0, "a running handler is intact");
		order[ran++] = i;
		if(i != remover) return;
		remover = -1;
		++depth;
		if(how == 0) clear();
		else { disconnect(how - 1); if(also >= 0) disconnect(also); }
		--depth;
	}
	void call() {
		ran = 0;
		cb->call();
		int k = 0;
		for(int i = 0; i < n; ++i) if(registered[i]) { ENSURE(k < ran && order[k] == i, "exactly the registered handlers run"); ++k; }
		ENSURE(k == ran, "exactly the registered handlers run");
	}
	void test() {
		{
			Cb c; cb = &c;
			int count = 1 + (int) vc::pick(4, "pickcount");
			for(int i = 0; i < count; ++i) add();
			owner = (int) vc::pick(count, "pickowner"); act = (int) vc::pick(4, "pickact"); if(act == 0) target = (int) vc::pick(count, "picktarget");
			if((int) vc::pick(2, "pickidle")) {
				if((int) vc::pick(3, "pickall") == 0) clear();
				else disconnect(owner);
			} else {
				// the same from within a call
				remover = (int) vc::pick(count, "pickremover"); how = (int) vc::pick(3, "pickhow") == 0 ? 0 : 1 + owner;
				if(how) also = (int) vc::pick(count, "pickalso");
				ran = 0;
				cb->call();
			}
			for(int i = 0; i < n; ++i) ENSURE(alive[i] == (registered[i] ? 1 : 0), "removed handlers are released, others are not");
			call();
			if(n < MAX) add();
			call();
			for(auto& r : registered) r = false;
			owner = -1;
		}
		for(auto a : alive) ENSURE(a == 0, "everything is released");
	}
};
}
HARNESS(released_plain) { { World<nytl::ConnectionID> w; w.test(); } vc_noleak(); }
HARNESS(released_tracked) { { World<nytl::TrackedConnectionID> w; w.test(); } vc_noleak(); }
