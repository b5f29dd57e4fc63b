// C09: scope guards
#include "vc.hpp"
#include <nytl/scope.hpp>
using namespace nytl;

namespace {
struct Err : std::exception {
	int v;
	Err(int x) : v(x) {}
	const char* what() const noexcept override { return "expected"; }
};
struct Other { int v; };

struct Any { static constexpr bool s = true, e = true; template<typename F> static auto make(F&& f) { return ScopeGuard {std::forward<F>(f)}; } };
struct Success { static constexpr bool s = true, e = false; template<typename F> static auto make(F&& f) { return SuccessGuard {std::forward<F>(f)}; } };
struct Exception { static constexpr bool s = false, e = true; template<typename F> static auto make(F&& f) { return ExceptionGuard {std::forward<F>(f)}; } };

/// runs f while n exceptions are in flight, for any n
template<typename F> struct InFlight {
	F& f; unsigned n;
	~InFlight() noexcept(false) {
		if(n == 0) f();
		else try { InFlight next {f, n - 1}; throw Other {7}; } catch(const Other&) {}
	}
};
template<typename F> void inFlight(F f) {
#ifdef VC_NATIVE
	InFlight<F> {f, (unsigned) vc::any<std::uint32_t>("inflight") % 4};
#else
	vc_set_uncaught(vc::any<std::uint32_t>("inflight"));
	f();
#endif
}

enum Exit { normal, returning, throwErr, throwOther, caughtInside, breaking };
enum Func { returns, throwsErr, throwsOther, throwsInside, nExits = 6, nFuncs = 4 };

struct State { int runs = 0; int inside = -1; Func func; };
void act(State& s) {
	++s.runs;
	switch(s.func) {
		case throwsErr: throw Err(3);
		case throwsOther: throw Other {4};
		case throwsInside: try { throw Err(5); } catch(const std::exception&) { } return;
		default: return;
	}
}
template<typename G, bool lvalue, typename Fn> void scope(Exit exit, bool unset, Fn& fn, int v) {
	for(int once = 0; once < 1; ++once) {
		auto use = [&](auto& guard) {
			if(unset) guard.unset();
			if(exit == throwErr) throw Err(v);
			if(exit == throwOther) throw Other {v};
			if(exit == caughtInside) try { throw Err(v); } catch(const Err&) {}
		};
		if constexpr(lvalue) { auto guard = G::make(fn); use(guard); if(exit == returning) return; if(exit == breaking) break; }
		else { auto guard = G::make([&] { fn(); }); use(guard); if(exit == returning) return; if(exit == breaking) break; }
	}
}
template<typename G, bool lvalue> void guards() {
	inFlight([] {
		auto exit = (Exit) vc::pick(nExits, "pickexit");
		State s; s.func = (Func) vc::pick(nFuncs, "pickfunc");
		bool unset = vc::pick(2, "pickunset");
		int v = vc::any<std::int32_t>("v");
		int before = std::uncaught_exceptions();
		auto fn = [&] { act(s); };
		int seen = 0, value = 0;
		try { scope<G, lvalue>(exit, unset, fn, v); }
		catch(const Err& e) { seen = 1; value = e.v; }
		catch(const Other& e) { seen = 2; value = e.v; }
		bool thrown = exit == throwErr || exit == throwOther;
		ENSURE(s.runs == (!unset && (thrown ? G::e : G::s)), "runs exactly on the promised exits");
		ENSURE(seen == (exit == throwErr ? 1 : exit == throwOther ? 2 : 0), "exceptions of the function never leave, those of the scope do");
		if(thrown) ENSURE(value == v, "the exception of the scope is unchanged");
		ENSURE(std::uncaught_exceptions() == before, "no exception is left in flight");
	});
}
/// two guards in one scope: run in reverse order, a throwing function does not stop the other
template<typename A, typename B> void two() {
	inFlight([] {
		State s, t; s.func = (Func) vc::pick(nFuncs, "pickfunc"); t.func = (Func) vc::pick(nFuncs, "pickfunc2");
		bool thrown = vc::pick(2, "pickthrow");
		int order = 0, os = 0, ot = 0;
		try {
			auto a = A::make([&] { os = ++order; act(s); });
			auto b = B::make([&] { ot = ++order; act(t); });
			if(thrown) throw Err(1);
		} catch(const Err&) {}
		bool ra = thrown ? A::e : A::s, rb = thrown ? B::e : B::s;
		ENSURE(s.runs == ra && t.runs == rb, "every guard runs on its exits");
		ENSURE(ot == (rb ? 1 : 0) && os == (ra ? (rb ? 2 : 1) : 0), "in reverse order");
	});
}
/// a guard inside of the function run by another guard during unwinding: its own scope does not fail
template<typename G> void nested() {
	inFlight([] {
		bool outer = vc::pick(2, "pickouter"), inner = vc::pick(2, "pickinner");
		int runs = 0, ran = 0;
		try {
			auto g = Any::make([&] {
				++ran;
				try {
					auto h = G::make([&] { ++runs; });
					if(inner) throw Err(2);
				} catch(const Err&) {}
			});
			if(outer) throw Other {1};
		} catch(const Other&) {}
		ENSURE(ran == 1, "the outer function runs");
		ENSURE(runs == (inner ? G::e : G::s), "exceptions in flight at creation do not count");
	});
}
}
HARNESS(any_rvalue) { guards<Any, false>(); }
HARNESS(any_lvalue) { guards<Any, true>(); }
HARNESS(success_rvalue) { guards<Success, false>(); }
HARNESS(success_lvalue) { guards<Success, true>(); }
HARNESS(exception_rvalue) { guards<Exception, false>(); }
HARNESS(exception_lvalue) { guards<Exception, true>(); }
HARNESS(nested_any) { nested<Any>(); }
HARNESS(nested_success) { nested<Success>(); }
HARNESS(nested_exception) { nested<Exception>(); }
HARNESS(two_any_success) { two<Any, Success>(); }
HARNESS(two_success_exception) { two<Success, Exception>(); }
HARNESS(two_exception_any) { two<Exception, Any>(); }
