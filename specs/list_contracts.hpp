// Contracts of the recursive callback for lists of any length. The handlers are numbered 0 .. N-1 along the list, N is
// any number. A loop over the list is verified at an arbitrary step k by an invariant (vc-loop): the nodes next to the
// iterator are real memory, everything further away is an address nobody may touch, so what is not in the window is
// not changed. What happens during a handler is given by the rely of callback_contracts.hpp, whose guarantee is
// proved for every operation here: each of them changes the node it names and no other.
// PROP selects the obligations of one property.
#pragma once
#include "vc.hpp"
#include <new>
#include <nytl/recursiveCallback.hpp>
#ifndef PROP
#error PROP
#endif

namespace lists {
constexpr unsigned P(int a) { return 1u << a; }
#define CHECK(props, cond, label) do { if constexpr(((props) & P(PROP)) != 0) { ENSURE(cond, label); } } while(0)
using i64 = std::int64_t; using u64 = std::uint64_t;

struct G { i64 v, start; int removed, alive; u64 memory; };
constexpr int MAX = 8;
G pool[MAX]; int used;
struct GID {
	G* g {};
	GID() = default;
	GID(i64 v) : g(&pool[used++]) { g->v = v; }
	void set(i64 v) noexcept { if(g) g->v = v; }
	i64 get() const noexcept { return g ? g->v : 0; }
	void removed() noexcept { if(g) { ++g->removed; g->v = 0; } }
};
struct Oops { int n; };
struct Val { int x; };
#ifndef RET
#define RET int
#endif
using Sig = RET(int, Val, int&);
using Base = nytl::RecursiveCallback<Sig, GID>;
using Conn = Base::Connection;
struct Cb : Base {
	using Base::subs_; using Base::last_; using Base::iterationCount_; using Base::subID_; using Base::callID_; using Base::Subscription;
	using Base::removeOld; using Base::operator=;
};
using List = decltype(Cb::subs_);
using Node = std::_Fwd_list_node_base;

RET handler(int uid, int a, Val v, int& r);
bool watching;         // whether the code under contract runs, and not the harness
void released();
struct Fn {
	int uid;
	Fn(int u) : uid(u) { ++pool[u].alive; }
	Fn(const Fn& o) : uid(o.uid) { ++pool[uid].alive; }
	~Fn() { if(--pool[uid].alive == 0 && watching) released(); }
	RET operator()(int x, Val v, int& r) const { return handler(uid, x, v, r); }
};
struct FnC { Fn f; RET operator()(Conn c, int x, Val v, int& r) const; };

Cb* cb;
u64 N;                 // length of the list
bool running;          // whether a call was running when the operation began
Node *first, *last;    // the first and the last node
constexpr i64 big = 1ll << 60;

/// a node of the list with an identifier of any value the invariant allows
Node* make(int u = -1) {
	auto m = vc_live();
	alignas(List) char mem[sizeof(List)];
	List& tmp = *new (mem) List; tmp.emplace_front();
	auto& s = tmp.front();
	auto v = vc::any<i64>("id");
	if(running) REQUIRE(((v > 0) & (v <= cb->subID_)) | ((v < 0) & (-v <= cb->callID_)));
	else REQUIRE((v > 0) & (v <= cb->subID_));
	if(u < 0) u = used++;
	s.id.g = &pool[u]; pool[u].v = v; pool[u].removed = 0;
	s.func = Fn(u);
	pool[u].start = v;
	Node* n = tmp.before_begin()._M_node->_M_next;
	pool[u].memory = vc_live() - m;
	return n;
}
G& of(Node* n) { return *static_cast<std::_Fwd_list_node<Cb::Subscription>*>(n)->_M_valptr()->id.g; }
bool hasFunc(Node* n) { return bool(static_cast<std::_Fwd_list_node<Cb::Subscription>*>(n)->_M_valptr()->func); }

void release(Node* n) {
	using Entry = std::_Fwd_list_node<Cb::Subscription>;
	if(!n) return;
	static_cast<Entry*>(n)->_M_valptr()->~Subscription();
	::operator delete(static_cast<void*>(n));
}
/// the first and the last entry may be gone
void forget() { release(first); if(last != first) release(last); first = last = nullptr; }

/// node k; the first and the last one exist already
Node* node(u64 k) {
	if(vc_split(k == 0)) return first;
	if(vc_split(k + 1 == N)) return last;
	return make();
}
/// the address of node k where its content does not matter
Node* address(u64 k) {
	if(vc_split(k == N)) return nullptr;
	if(vc_split(k == 0)) return first;
	if(vc_split(k + 1 == N)) return last;
	return static_cast<Node*>(vc_opaque("node"));
}
Node* head() { return cb->subs_.before_begin()._M_node->_M_next; }
void head(Node* n) { cb->subs_.before_begin()._M_node->_M_next = n; }

/// any state with N entries
void arbitrary(bool r) {
	vc::inflight();
	running = r; used = 0;
	for(auto& g : pool) g = G {};
	cb->subID_ = vc::any<i64>("subID"); cb->callID_ = vc::any<i64>("callID");
	cb->iterationCount_ = running ? vc::any<std::uint32_t>("iterations") : 0;
	N = vc::any<u64>("N");
	REQUIRE((N < (1ull << 40)) & (cb->subID_ >= (i64) N) & (cb->subID_ < big) & (cb->callID_ >= 0) & (cb->callID_ < big));
	if(running) REQUIRE((cb->iterationCount_ >= 1) & (cb->iterationCount_ < (1u << 30)) & (cb->callID_ >= 1));
	first = last = nullptr;
	if(vc_split(N > 0)) {
		first = make();
		if(vc_split(N == 1)) last = first;
		else {
			last = make();
			first->_M_next = address(1);
		}
		last->_M_next = nullptr;
	}
	head(first);
	cb->last_ = List::iterator(last);
}
struct Alloc {
	alignas(Cb) char mem[sizeof(Cb)];
	Alloc() { cb = new (mem) Cb; }
};
struct Before {
	i64 callID, subID; unsigned iterations;
	Before() : callID(cb->callID_), subID(cb->subID_), iterations(cb->iterationCount_) {}
	template<unsigned props> void same() const {
		CHECK(props, cb->callID_ == callID && cb->subID_ == subID && cb->iterationCount_ == iterations, "nothing else changes");
	}
};
template<unsigned props> void untouched(G& g) { CHECK(props, g.v == g.start && g.alive == 1 && g.removed == 0, "other handlers are not affected"); }

// ---------------------------------------------------------------- call
u64 k; Node *cur, *nextNode; i64 callid; Before* before;
int arg; int* ref; bool threw, throws, ran; u64 results; bool cleaned; std::int32_t result;
u64 some; u64 ranSome; bool someRegistered;       // any entry of the list: how often it has run

/// the effect of arbitrary operations issued by a handler while a call is running, on node n and the whole
void rely(Node* n) {
	auto c = vc::any<i64>("laterCallID"); auto s = vc::any<i64>("laterSubID");
	REQUIRE((c >= cb->callID_) & (c < big) & (s >= cb->subID_) & (s < big));
	auto& g = of(n);
	auto x = vc::any<i64>("removedDuring");
	REQUIRE((x == g.v) | ((g.v > 0) & (x < 0) & (-x >= cb->callID_) & (-x <= c)));
	g.v = x;
	cb->callID_ = c; cb->subID_ = s;
	if(last->_M_next == nullptr && vc_choose(2)) {      // additions
		auto* added = static_cast<Node*>(vc_opaque("added"));
		last->_M_next = added;
		cb->last_ = List::iterator(static_cast<Node*>(vc_opaque("last added")));
	}
}
RET handler(int uid, int a, Val v, int& r) {
	auto& g = pool[uid];
	CHECK(P(1), cur && &g == &of(cur) && !ran, "the next handler is the next one registered at the start, once");
	CHECK(P(3), g.alive > 0, "a running handler is intact");
	CHECK(P(4), !threw, "no handler runs after an exception");
	CHECK(P(6), a == arg && v.x == arg + 1 && &r == ref, "every handler receives the arguments of the caller");
	CHECK(P(3), cb->iterationCount_ == before->iterations + 1, "a call is running");
	ran = true;
	if(k == some) ++ranSome;
	rely(cur);
	CHECK(P(3), g.alive > 0, "a running handler is intact");
	if(throws && vc_choose(2)) { threw = true; throw Oops {arg}; }
	result = vc::any<std::int32_t>("result");
	return RET(result);
}
/// at the start of a step: node k, what has happened to it since the call began
void step() {
	cur = node(k);
	auto& g = of(cur);
	auto x = vc::any<i64>("now");
	g.start = vc::any<i64>("atStart");
	REQUIRE((x == g.start) | ((g.start > 0) & (x < 0) & (-x >= callid) & (-x <= cb->callID_)));
	REQUIRE(((g.start > 0) & (g.start <= cb->subID_)) | ((g.start < 0) & (-g.start < callid)));   // callid is fresh
	REQUIRE((k != some) | ((g.start > 0) == someRegistered));
	g.v = x;
	if(vc_split(k + 1 < N)) { nextNode = address(k + 1); cur->_M_next = nextNode; }
	else nextNode = nullptr;
	ran = false;
}
/// what has to be so after a step
void stepDone() {
	CHECK(P(1), ran == (of(cur).start > 0), "a handler runs exactly if it was registered at the start");
	CHECK(P(1), ranSome == (some <= k && someRegistered ? 1 : 0), "each handler once so far, up to here");
	CHECK(P(3), of(cur).alive == 1 && of(cur).removed == 0, "nothing is released while a call is running");
}
void callLoop(int phase, Node** it) {
	if(phase == 0) {
		CHECK(P(1), *it == first, "begins at the first handler");
		callid = cb->callID_;
		CHECK(P(1), callid > before->callID, "a call has a number greater than that of every earlier call");
		CHECK(P(1) | P(3), cb->iterationCount_ == before->iterations + 1, "a call is running");
		CHECK(P(1) | P(6), ranSome == 0 && results == 0, "nothing has run");
		if(!first) return;
		k = vc::any<u64>("k"); REQUIRE(k < N);
		// other handlers have run
		auto c = vc::any<i64>("callIDnow"), s = vc::any<i64>("subIDnow");
		REQUIRE((c >= callid) & (c < big) & (s >= cb->subID_) & (s < big));
		cb->callID_ = c; cb->subID_ = s;
		if(k > 0 && vc_choose(2)) {
			last->_M_next = static_cast<Node*>(vc_opaque("added"));
			cb->last_ = List::iterator(static_cast<Node*>(vc_opaque("last added")));
		} else { last->_M_next = nullptr; cb->last_ = List::iterator(last); }
		ranSome = some < k && someRegistered ? 1 : 0;
		results = vc::any<u64>("resultsSoFar"); REQUIRE(results < (1ull << 40));
		step();
		*it = cur;
		return;
	}
	CHECK(P(1), k + 1 < N && *it == nextNode, "goes on to the next handler that was in the list at the start, and no further");
	CHECK(P(3) | P(4), cb->iterationCount_ == before->iterations + 1, "a call is running");
	stepDone();
}
/// std::vector::push_back, as an assumed contract: appends the value
void pushed(void*, const std::int32_t* v) {
	CHECK(P(6), ran && *v == result, "the result of the handler that has just run is appended");
	++results;
}
u64 anyDistance() { auto n = vc::any<u64>("size"); REQUIRE(n < (1ull << 40)); return n; }
/// contract of removeOld: see removeContract
void cleanUp(Cb* c) {
	CHECK(P(3) | P(4), c == cb && cb->iterationCount_ == 0 && !cleaned, "the clean-up runs once, when no call is running any more");
	cleaned = true;
}
template<bool run> void callContract() {
	Alloc a; arbitrary(run);
	Before b; before = &b;
	cur = nullptr; ran = false; threw = false; cleaned = false; results = 0; ranSome = 0;
	some = vc::any<u64>("some"); someRegistered = vc::any<bool>("someRegistered");
	REQUIRE(some < N);
	throws = vc_choose(2);
	arg = vc::any<std::int32_t>("arg"); REQUIRE(arg < 1000000);
	int target = 0; ref = &target;
	bool caught = false;
	if(N == 0) { some = 0; someRegistered = false; }
	try {
		cb->call(arg, Val {arg + 1}, target);
		if(first) {
			CHECK(P(1), k + 1 == N && cur == last, "ends with the last handler that was in the list at the start");
			stepDone();
		} else CHECK(P(1), !ran, "no handler runs");
		CHECK(P(1), ranSome == (someRegistered ? 1 : 0), "every handler registered at the start has run exactly once");
	} catch(const Oops& e) { caught = true; CHECK(P(4), e.n == arg, "the exception of the handler arrives"); }
	CHECK(P(4), caught == threw, "exactly an exception of a handler leaves the call");
	CHECK(P(3) | P(4), cb->iterationCount_ == b.iterations, "the call has ended");
	CHECK(P(3) | P(4), cleaned == !run, "clean-up happens exactly when the last running call ends");
	CHECK(P(1) | P(3), cb->callID_ > b.callID && cb->subID_ >= b.subID, "numbers do not decrease");
	if(first) CHECK(P(1) | P(3), head() == first, "the list keeps its handlers");
	if(first) CHECK(P(3) | P(4), last->_M_next != nullptr || cb->last_ == List::iterator(last), "the end of the list is known");
}

// ---------------------------------------------------------------- release
enum Mode { None, All, One, Old, End };
Mode mode;             // what is removed: everything, the disconnected handler, those removed during calls
struct Pause { bool w {watching}; Pause() { watching = false; } ~Pause() { watching = w; } };
u64 live0; bool dead; Node* kept; u64 keptCount;
i64 someValue; u64 someReleased;
u64 at; Node *prev, *second; Node* headNow;
Node* goneHead;        // the removed entries that are still to be released
bool front() { return vc_split(at == 0); }

/// what the destructor of a handler finds: a state in which every operation may begin (and nothing is read afterwards,
/// see the frame conditions of the contracts)
void released() {
	constexpr auto p = P(3);
	if(mode == None || mode == End) return;
	CHECK(p, cb->iterationCount_ == 0, "a handler is released when no call is running");
	if(mode == All) CHECK(p, head() == nullptr, "the list is consistent when a handler is released");
	if(mode == Old) {
		CHECK(p, head() == (kept ? headNow : nullptr), "the list is consistent when a handler is released");
		if(kept) CHECK(p, cb->last_ == List::iterator(kept) && kept->_M_next == nullptr, "the list is consistent when a handler is released");
	}
	if(mode == One) {
		if(front()) CHECK(p, head() == second && (!second || cb->last_ == List::iterator(last)), "the list is consistent when a handler is released");
		else CHECK(p, head() == first && prev->_M_next == nextNode && cb->last_ == List::iterator(nextNode ? last : prev), "the list is consistent when a handler is released");
	}
}

// ---------------------------------------------------------------- removeOld
Node*& headOf(List* l) { return l->before_begin()._M_node->_M_next; }
void gone(List* l, bool some) {
	if(!l) return;
	goneHead = some && vc_choose(2) ? static_cast<Node*>(vc_opaque("removed")) : nullptr;
	headOf(l) = goneHead;
}
/// every removed entry met is notified and released, every other one is kept linked: entry k, reached with the kept entries ending in `kept`
void enterRemove() {
	cur = make();
	auto& g = of(cur);
	g.start = g.v = vc::any<i64>("id");
	REQUIRE(((g.v > 0) & (g.v <= cb->subID_)) | ((g.v < 0) & (-g.v <= cb->callID_)));
	nextNode = vc_split(k + 1 == N) ? nullptr : static_cast<Node*>(vc_opaque("node"));
	cur->_M_next = nextNode;
	dead = vc_split(g.v < 0);
	live0 = vc_live();
}
void leaveRemove(G& g, List* l) {
	if(dead && l && headOf(l) == cur) {
		CHECK(P(3), g.removed == 1 && g.alive == 1 && vc_live() == live0, "a removed handler is notified once and kept aside");
		CHECK(P(3), cur->_M_next == goneHead, "together with the other removed ones");
		CHECK(P(5), g.v <= 0, "a removed handler stays disconnected");
		return;
	}
	if(l) CHECK(P(2) | P(3), headOf(l) == goneHead, "only removed handlers are kept aside");
	if(dead) {
		CHECK(P(3), g.removed == 1 && g.alive == 0, "a removed handler is notified once and released");
		CHECK(P(3), vc_live() + g.memory == live0, "its memory is released");
		CHECK(P(5), g.v <= 0, "a removed handler stays disconnected");
	} else {
		untouched<P(2) | P(3) | P(5)>(g);
		CHECK(P(3), vc_live() == live0, "nothing is released for a registered one");
		CHECK(P(2) | P(3), cur->_M_next == nextNode && hasFunc(cur), "and it stays linked to the rest");
	}
}
G* curG;
void removeFront(int phase, Node** it, List* l) {
	Pause pause;
	if(phase == 0) {
		CHECK(P(3), *it == first && head() == first, "begins with the first entry");
		if(l) CHECK(P(2) | P(3), l->empty(), "nothing is removed yet");
		k = vc::any<u64>("k"); REQUIRE(k <= N);
		forget();
		gone(l, vc_split(k > 0));
		// the entries before k were removed
		if(vc_split(k == N)) { cur = nullptr; nextNode = nullptr; curG = nullptr; head(nullptr); *it = nullptr; return; }
		enterRemove(); curG = &of(cur);
		head(cur); *it = cur;
		return;
	}
	CHECK(P(2) | P(3), dead, "a registered handler is not removed");
	leaveRemove(*curG, l);
	CHECK(P(1) | P(3), *it == nextNode && head() == nextNode, "the list goes on with the next entry");
}
G* keptG; Node* linkedBefore;
void removeRest(int phase, Node** it, Node** next, List* l) {
	Pause pause;
	if(phase == 0) {
		// the first loop ended at a registered handler: the list begins with it
		CHECK(P(2) | P(3), cur && !dead && *it == cur && head() == cur && *next == nextNode, "the first registered handler is the head of the list");
		leaveRemove(*curG, l);
		auto k0 = k;
		release(cur);
		gone(l, true);
		// step: the entries up to k - 1 are done, the last one kept is `kept`
		k = vc::any<u64>("k2"); REQUIRE((k > k0) & (k <= N));
		kept = make();
		headNow = vc_split(k == k0 + 1) || vc_choose(2) ? kept : static_cast<Node*>(vc_opaque("head"));
		head(headNow);
		keptG = &of(kept);
		keptG->v = vc::any<i64>("keptID"); REQUIRE((keptG->v > 0) & (keptG->v <= cb->subID_)); keptG->start = keptG->v;
		if(vc_split(k == N)) { cur = nullptr; curG = nullptr; kept->_M_next = nullptr; *it = kept; *next = nullptr; nextNode = nullptr; live0 = vc_live(); return; }
		enterRemove(); curG = &of(cur);
		kept->_M_next = cur;
		*it = kept; *next = cur;
		return;
	}
	leaveRemove(*curG, l);
	CHECK(P(1) | P(3), head() == headNow, "the head stays");
	untouched<P(2) | P(3) | P(5)>(*keptG);
	CHECK(P(1) | P(3), *next == nextNode, "goes on with the next entry");
	if(dead) CHECK(P(1) | P(3), *it == kept && kept->_M_next == nextNode, "the last kept handler is linked to the rest");
	else CHECK(P(1) | P(2) | P(3), *it == cur && kept->_M_next == cur && cur->_M_next == nextNode, "a registered handler stays in its place");
}
void removeContract() {
	Alloc a; arbitrary(true); cb->iterationCount_ = 0;
	Before b; before = &b; kept = nullptr; dead = false; mode = Old; goneHead = nullptr;
	watching = true;
	cb->removeOld();
	watching = false;
	b.same<P(3)>();
	if(kept) {
		CHECK(P(3), k == N && cur == nullptr, "all entries are visited");
		CHECK(P(1) | P(3) | P(4), head() == headNow && cb->last_ == List::iterator(kept) && kept->_M_next == nullptr, "the end of the list is known");
		untouched<P(2) | P(3) | P(5)>(*keptG);
	} else CHECK(P(1) | P(3) | P(4), k == N && head() == nullptr, "an empty list if no handler is registered");
}

// ---------------------------------------------------------------- disconnect
i64 wanted;              // at: the position of the wanted handler, if any
int reserved;            // its identifier
/// any node at position j
void identify(Node* n, u64 j) { auto& g = of(n); REQUIRE(((wanted > 0) & (g.v == wanted)) == (j == at)); }
void searchLoop(int phase, Node** it, Node** next) {
	Pause pause;
	if(phase == 0) {
		CHECK(P(2), *it == first && first, "begins at the first entry");
		if(next) CHECK(P(2), *next == first->_M_next, "begins at the first entry");
		CHECK(P(2), at > 0, "the first entry is not the wanted one");
		k = vc::any<u64>("k"); REQUIRE((k < N) & (k < at));
		prev = node(k);
		if(vc_split(k + 1 < N)) {
			if(vc_split(k + 2 < N)) cur = vc_split(k + 1 == at) ? make(reserved) : make();
			else cur = last;
			identify(cur, k + 1); curG = &of(cur);
			nextNode = address(k + 2);
			if(cur != last) cur->_M_next = nextNode;
			prev->_M_next = cur;
		} else { cur = nullptr; nextNode = nullptr; }
		identify(prev, k);
		*it = prev; live0 = vc_live();
		if(next) *next = cur;
		return;
	}
	CHECK(P(2), cur && *it == cur && (!next || *next == nextNode) && k + 1 < at, "an entry is passed only if it is not the wanted one");
	untouched<P(2) | P(3) | P(5)>(of(prev)); untouched<P(2) | P(3) | P(5)>(of(cur));
	CHECK(P(2), prev->_M_next == cur && cur->_M_next == nextNode && vc_live() == live0, "and the list is not changed");
}
template<bool run> void disconnectContract() {
	Alloc a; arbitrary(run);
	Before b; before = &b;
	static G other; other.v = wanted = vc::any<i64>("which");
	at = vc::any<u64>("at");
	REQUIRE((at >= N) | (wanted > 0));
	GID id; id.g = &other;
	cur = prev = nullptr; curG = nullptr;
	reserved = used++;
	if(first) { identify(first, 0); if(last != first) identify(last, N - 1); }
	if(vc_split(at == 0 && first)) { if(vc_choose(2)) id.g = &of(first); }
	else if(vc_split(at + 1 == N && first)) { if(vc_choose(2)) id.g = &of(last); }
	else if(vc_split(at < N)) { if(vc_choose(2)) { id.g = &pool[reserved]; pool[reserved].v = wanted; } }
	live0 = vc_live();
	second = first ? first->_M_next : nullptr;
	G* firstG = first ? &of(first) : nullptr;
	mode = One; watching = true;
	bool r = cb->disconnect(id);
	watching = false;
	b.same<P(2) | P(3)>();
	CHECK(P(2), r == (at < N), "returns whether the handler was registered");
	if(!r) {
		CHECK(P(2), vc_live() == live0 && head() == first && cb->last_ == List::iterator(last), "nothing changes");
		if(first && !prev) untouched<P(2) | P(5)>(*firstG);
		if(prev) { untouched<P(2) | P(5)>(of(prev)); CHECK(P(2), !cur && prev->_M_next == nullptr, "nothing changes"); }
		return;
	}
	bool front = lists::front();
	if(!front) CHECK(P(2), k + 1 == at, "found where it is");
	if(!front) untouched<P(2) | P(3) | P(5)>(of(prev));
	if(run) {
		Node* n = front ? first : cur;
		CHECK(P(1) | P(2) | P(5), of(n).v == -b.callID && of(n).v < 0, "the handler is marked as removed during the running call");
		CHECK(P(3), of(n).alive == 1 && of(n).removed == 0 && vc_live() == live0, "its release waits for the running calls");
		CHECK(P(1) | P(2) | P(3), head() == first && cb->last_ == List::iterator(last), "the list keeps its entries");
		if(!front) CHECK(P(1) | P(2) | P(3), prev->_M_next == cur && cur->_M_next == nextNode, "the list keeps its entries");
		else CHECK(P(1) | P(2) | P(3), first->_M_next == second, "the list keeps its entries");
		return;
	}
	G& h = front ? *firstG : *curG;
	CHECK(P(2) | P(5), h.v <= 0, "the handler is not registered any more");
	CHECK(P(3), h.alive == 0 && h.removed == 1 && vc_live() + h.memory == live0, "it is released at once and notified once");
	if(front) {
		CHECK(P(1) | P(2) | P(3), head() == second, "the others stay");
		CHECK(P(1) | P(2) | P(3), second == nullptr || cb->last_ == List::iterator(last), "the end of the list is known");
	} else {
		CHECK(P(1) | P(2) | P(3), head() == first && prev->_M_next == nextNode, "the others stay");
		CHECK(P(1) | P(2) | P(3), cb->last_ == List::iterator(nextNode ? last : prev), "the end of the list is known");
	}
}

// ---------------------------------------------------------------- clear and destruction
bool erasing, marked, any;
void settle(Node* n, bool done) {
	auto& g = of(n);
	g.v = !done ? g.start : !running ? 0 : g.start > 0 ? -cb->callID_ : g.start;
	g.removed = done && !running;
}
void clearLoop(int phase, Node** it) {
	Pause pause;
	if(phase == 0) {
		CHECK(P(2) | P(3) | P(5), *it == first, "begins at the first entry");
		if(!first) return;
		k = vc::any<u64>("k"); REQUIRE(k <= N);
		marked = true;
		settle(first, k > 0); if(last != first) settle(last, k == N);
		if(vc_split(k == N)) { *it = nullptr; cur = nullptr; return; }
		cur = node(k);
		nextNode = address(k + 1);
		cur->_M_next = nextNode;
		*it = cur; live0 = vc_live();
		return;
	}
	auto& g = of(cur);
	CHECK(P(1) | P(2) | P(3) | P(5), *it == nextNode, "goes on with the next entry");
	CHECK(P(2) | P(3), cur->_M_next == nextNode && vc_live() == live0 && g.alive == 1, "entries stay for now");
	CHECK(P(2) | P(5), g.v <= 0, "no handler is registered any more");
	if(running) {
		CHECK(P(1) | P(2) | P(3), g.v == (g.start > 0 ? -cb->callID_ : g.start), "removals are marked with the running call, earlier ones stay");
		CHECK(P(3), g.removed == 0, "the notification waits for the running calls");
	} else CHECK(P(3), g.removed == 1, "notified once");
}
/// forward_list::clear and its destructor
void eraseLoop(int phase, Node** it) {
	Pause pause;
	if(phase == 0 && mode == One) {
		// the list of the one entry that was taken out, if any
		if(!*it) return;
		CHECK(P(2) | P(3), !running && *it == (front() ? first : cur) && (*it)->_M_next == nullptr, "only the disconnected handler is released");
		cur = *it; curG = &of(cur);
		CHECK(P(3), curG->removed == 1 && curG->alive == 1 && vc_live() == live0, "notified once, before it is released");
		auto v = curG->v;
		release(cur);
		if(vc_choose(2)) { *it = nullptr; return; }     // after the step that is verified in the other case
		cur = make(); curG = &of(cur);                  // the same entry, in memory the step may change
		curG->v = v; curG->removed = 1; cur->_M_next = nullptr;
		*it = cur; live0 = vc_live();
		return;
	}
	if(phase == 0 && mode == Old) {
		// any one of the entries that were kept aside
		CHECK(P(2) | P(3), *it == goneHead, "only removed handlers are released");
		if(!goneHead) return;
		if(vc_choose(2)) { *it = nullptr; return; }
		cur = make(); curG = &of(cur);
		curG->v = 0; curG->removed = 1;        // see leaveRemove
		nextNode = vc_choose(2) ? nullptr : static_cast<Node*>(vc_opaque("node"));
		cur->_M_next = nextNode;
		*it = cur; live0 = vc_live();
		return;
	}
	if(phase == 0) {
		CHECK(P(2) | P(3), !running && *it == first, "begins at the first entry");
		erasing = true;
		any = first != nullptr;
		if(!first) return;
		k = vc::any<u64>("k2"); REQUIRE(k <= N);
		forget();
		if(vc_split(k == N)) { *it = nullptr; cur = nullptr; return; }
		cur = make();
		curG = &of(cur);
		curG->v = 0; curG->removed = 1;        // see clearLoop
		nextNode = vc_split(k + 1 == N) ? nullptr : static_cast<Node*>(vc_opaque("node"));
		cur->_M_next = nextNode;
		*it = cur; live0 = vc_live();
		return;
	}
	CHECK(P(2) | P(3), *it == (mode == One ? nullptr : nextNode), "goes on with the next entry");
	CHECK(P(3), curG->alive == 0 && curG->removed == 1 && vc_live() + curG->memory == live0, "each handler is released");
}
template<bool run> void clearContract() {
	Alloc a; arbitrary(run);
	Before b; before = &b; cur = nullptr; erasing = marked = false; mode = All; watching = true;
	cb->clear();
	watching = false;
	b.same<P(2)>();
	CHECK(P(2) | P(3) | P(5), marked == (N > 0), "all entries are visited");
	CHECK(P(2) | P(3), erasing == !run, "released at once unless a call is running");
	if(run) {
		CHECK(P(1) | P(2) | P(3), head() == first && cb->last_ == List::iterator(last), "the list keeps its entries");
		if(first) CHECK(P(2) | P(3) | P(5), k == N, "all entries are visited");
	} else {
		CHECK(P(1) | P(2) | P(3), head() == nullptr && cb->subs_.empty(), "no handler is left");
		if(any) CHECK(P(2) | P(3), k == N && !cur, "all entries are released");
	}
}
inline void destructorContract() {
	Alloc a; arbitrary(false);
	Before b; before = &b; cur = nullptr; erasing = marked = false; mode = End; watching = true;
	cb->~Cb();
	watching = false;
	CHECK(P(3) | P(5), marked == (N > 0) && erasing, "all entries are visited and released");
	if(any) CHECK(P(3) | P(5), k == N && !cur, "all entries are visited and released");
}

// ---------------------------------------------------------------- add
RET FnC::operator()(Conn c, int x, Val v, int& r) const {
	CHECK(P(5) | P(6), c.connectable() == cb && c.id().g == &pool[f.uid], "the connection handed to a handler is its own");
	return f(x, v, r);
}
/// kind: 0 plain, 1 with its connection, 2 an empty function, 3 an empty function with connection, 4 +=
template<bool run> void addContract() {
	Alloc a; arbitrary(run);
	Before b; before = &b;
	int kind = vc_choose(5), u = used; Conn c; bool thrown = false;
	auto live = vc_live();
	using F = std::function<Sig>; using FC = std::function<RET(Conn, int, Val, int&)>;
	try {
		if(kind == 0) c = cb->add(F(Fn(u)));
		else if(kind == 1) c = cb->add(FC(FnC {Fn(u)}));
		else if(kind == 2) c = cb->add(F {});
		else if(kind == 3) c = cb->add(FC {});
		else c = *cb += F(Fn(u));
	} catch(const std::invalid_argument&) { thrown = true; }
	CHECK(P(2), thrown == (kind == 2 || kind == 3), "adding an empty function throws");
	CHECK(P(2), cb->callID_ == b.callID && cb->iterationCount_ == b.iterations, "nothing else changes");
	if(first) untouched<P(2) | P(3) | P(5)>(of(first));
	if(last) untouched<P(2) | P(3) | P(5)>(of(last));
	if(thrown) {
		CHECK(P(2), cb->subID_ == b.subID && used == u && vc_live() == live && head() == first && cb->last_ == List::iterator(last), "nothing changes");
		return;
	}
	Node* n = first ? last->_M_next : head();
	CHECK(P(1) | P(2) | P(3), n && cb->last_ == List::iterator(n) && n->_M_next == nullptr, "the new handler is the last one");
	CHECK(P(1) | P(2) | P(3), !first || head() == first, "the others stay");
	CHECK(P(2) | P(5), c.connectable() == cb && c.id().g == &pool[u] && &of(n) == &pool[u] && c.connected(), "the connection belongs to the new handler");
	CHECK(P(1) | P(2), pool[u].v > b.subID && cb->subID_ >= pool[u].v, "a new number");
	CHECK(P(3), used == u + 1 && pool[u].alive == 1 && pool[u].removed == 0, "the handler is kept");
	// what was stored is the function: it gets the arguments of the caller
	if(!first) first = last = n;
	cur = n; ran = false; threw = throws = false; arg = vc::any<std::int32_t>("arg"); REQUIRE(arg < 1000000); int target = 0; ref = &target;
	k = 0; some = 1;
	cb->iterationCount_ = b.iterations + 1;
	cb->last_->func(arg, Val {arg + 1}, target);
	CHECK(P(1) | P(6), ran, "the entry runs the handler that was added");
}
} // namespace lists

extern "C" {
void lc_call(int phase, lists::Node** it) { lists::callLoop(phase, it); }
void lc_pushed(void* v, const std::int32_t* x) { lists::pushed(v, x); }
lists::u64 lc_distance() { return lists::anyDistance(); }
void lc_cleanUp(lists::Cb* c) { lists::cleanUp(c); }
void lc_front(int phase, lists::Node** it, lists::List* l) { lists::removeFront(phase, it, l); }
void lc_rest(int phase, lists::Node** it, lists::Node** next, lists::List* l) { lists::removeRest(phase, it, next, l); }
void lc_search(int phase, lists::Node** it, lists::Node** next) { lists::searchLoop(phase, it, next); }
void lc_clear(int phase, lists::Node** it) { lists::clearLoop(phase, it); }
void lc_erase(int phase, lists::Node** it) { lists::eraseLoop(phase, it); }
}
