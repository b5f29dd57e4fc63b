// C10: cloning keeps the dynamic type and the state
// vc-programs: 1
#include "vc.hpp"
#include <nytl/clone.hpp>
#include <typeinfo>
using namespace nytl;

namespace {
struct Err { int v; };
/// state that tells copies, moves and lifetimes apart
struct Value {
	static inline int alive = 0, copies = 0, moves = 0, throwAt = -1;
	std::int64_t v; Value* self;
	Value(std::int64_t x = 0) : v(x), self(this) { ++alive; }
	Value(const Value& o) : v(o.v), self(this) { if(copies++ == throwAt) throw Err {5}; ++alive; }
	Value(Value&& o) : v(o.v), self(this) { if(moves++ == throwAt) throw Err {6}; o.v = -1; ++alive; }
	~Value() { ENSURE(self == this, "every object is destroyed where it was made"); --alive; }
	Value& operator=(const Value&) = delete;
	static void reset() { alive = copies = moves = 0; throwAt = -1; }
};
struct Plain { std::int64_t pad = 3; virtual ~Plain() = default; Plain() = default; Plain(const Plain&) = default; Plain(Plain&&) = default; virtual int plain() const { return 1; } };
struct Data { std::int32_t data = 4; };

// -- hierarchies
struct Single : Cloneable<Single> { Value a; virtual int type() const { return 1; } virtual ~Single() = default; Single() = default; Single(const Single&) = default; Single(Single&&) = default; };
struct Abstract : AbstractCloneable<Abstract> { Value a; virtual int type() const = 0; virtual ~Abstract() = default; Abstract() = default; Abstract(const Abstract&) = default; Abstract(Abstract&&) = default; };
struct Abstract2 : AbstractCloneable<Abstract2> { Value b; virtual int type2() const = 0; virtual ~Abstract2() = default; Abstract2() = default; Abstract2(const Abstract2&) = default; Abstract2(Abstract2&&) = default; };
struct Impl : DeriveCloneable<Impl, Abstract> { Value c; int type() const override { return 2; } };
struct Over : DeriveCloneable<Over, Single> { Value c; int type() const override { return 3; } };
struct Deep : DeriveCloneable<Deep, Impl> { Value d; int type() const override { return 4; } };
struct Deeper : Plain, DeriveCloneable<Deeper, Deep> { Value e; int type() const override { return 5; } };
struct Second : Plain, Data, DeriveCloneable<Second, Abstract> { Value c; int type() const override { return 6; } };
struct Multi : DeriveCloneable<Multi, Abstract, Abstract2> { Value c; int type() const override { return 7; } int type2() const override { return 17; } };
struct Multi2 : Data, DeriveCloneable<Multi2, Plain, Abstract2, Abstract> { Value c; int type() const override { return 8; } int type2() const override { return 18; } };
struct MultiDeep : DeriveCloneable<MultiDeep, Multi> { Value d; int type() const override { return 9; } int type2() const override { return 19; } };
struct Late : DeriveCloneable<Late, Single, Abstract2> { Value c; int type() const override { return 10; } int type2() const override { return 20; } };
struct MSingle : CloneMovable<MSingle> { Value a; virtual int type() const { return 11; } virtual ~MSingle() = default; MSingle() = default; MSingle(MSingle&&) = default; };
struct MAbstract : AbstractCloneMovable<MAbstract> { Value a; MAbstract() = default; MAbstract(MAbstract&&) = default; virtual int type() const = 0; virtual ~MAbstract() = default; };
struct MImpl : Plain, DeriveCloneMovable<MImpl, MAbstract> { Value c; MImpl() = default; MImpl(MImpl&&) = default; int type() const override { return 12; } };
struct MOver : Plain, DeriveCloneMovable<MOver, MSingle> { Value c; MOver() = default; MOver(MOver&&) = default; int type() const override { return 13; } };

template<typename T, int n> struct Access;
#define STATE(T, N, ...) template<typename F> void each(T& x, F f) { Value* vs[] = {__VA_ARGS__}; for(int i = 0; i < N; ++i) f(*vs[i], i); } constexpr int count(const T*) { return N; }
STATE(Single, 1, &x.a) STATE(Impl, 2, &x.a, &x.c) STATE(Over, 2, &x.a, &x.c) STATE(Deep, 3, &x.a, &x.c, &x.d)
STATE(Deeper, 4, &x.a, &x.c, &x.d, &x.e) STATE(Second, 2, &x.a, &x.c) STATE(Multi, 3, &x.a, &x.b, &x.c)
STATE(Multi2, 3, &x.a, &x.b, &x.c) STATE(MultiDeep, 4, &x.a, &x.b, &x.c, &x.d) STATE(Late, 3, &x.a, &x.b, &x.c)
STATE(MSingle, 1, &x.a) STATE(MImpl, 2, &x.a, &x.c) STATE(MOver, 2, &x.a, &x.c)

template<typename T> struct SetUp {
	static constexpr int n = count((T*) nullptr);
	std::int64_t v[n];
	SetUp(T& o) {
		for(auto& x : v) x = vc::any<std::int64_t>("v");
		each(o, [&](Value& y, int i) { y.v = v[i]; });
	}
	void data(T& o, bool set) {
		if constexpr(std::is_base_of_v<Plain, T>) { if(set) o.pad = v[0] ^ 77; ENSURE(o.pad == (v[0] ^ 77), "plain state"); }
		if constexpr(std::is_base_of_v<Data, T>) { if(set) o.data = (std::int32_t) v[0] ^ 55; ENSURE(o.data == ((std::int32_t) v[0] ^ 55), "plain state"); }
	}
};
template<typename T, typename B> void checkSame(const std::unique_ptr<B>& p, B& src, SetUp<T>& s, const char* what) {
	ENSURE(p != nullptr && p.get() != &src, "a distinct object");
	auto whole = dynamic_cast<T*>(p.get());
	ENSURE(whole != nullptr && typeid(*p) == typeid(T), "the same dynamic type");
	ENSURE(dynamic_cast<void*>(p.get()) == (void*) whole && (void*) static_cast<B*>(whole) == (void*) p.get(), "the pointer denotes that base of the clone");
	each(*whole, [&](Value& y, int i) { ENSURE(y.v == s.v[i] && y.self == &y, what); });
	s.data(*whole, false);
}
template<typename T, typename B> void cloned() {
	Value::reset();
	{
		T o; SetUp<T> s(o); s.data(o, true);
		auto live = vc_live();
		{
			B& b = o;
			const B& cb = b;
			std::unique_ptr<B> p = clone(cb);
			checkSame<T, B>(p, b, s, "a copy of the full state");
			ENSURE(Value::copies == s.n && Value::moves == 0 && Value::alive == 2 * s.n, "every part is copied once");
			each(o, [&](Value& y, int i) { ENSURE(y.v == s.v[i], "the source is unchanged"); });
			s.data(o, false);
			ENSURE(vc_live() == live + 1, "one object is allocated");
		}
		ENSURE(Value::alive == s.n && vc_live() == live, "owned by the pointer");
	}
	ENSURE(Value::alive == 0, "all destroyed");
}
template<typename T, typename B> void moved() {
	Value::reset();
	{
		T o; SetUp<T> s(o); s.data(o, true);
		auto live = vc_live();
		{
			B& b = o;
			std::unique_ptr<B> p = cloneMove(b);
			checkSame<T, B>(p, b, s, "the full state is received");
			ENSURE(Value::moves == s.n && Value::copies == 0 && Value::alive == 2 * s.n, "every part is moved once");
			each(o, [&](Value& y, int) { ENSURE(y.v == -1, "the source is moved from"); });
		}
		ENSURE(Value::alive == s.n && vc_live() == live, "owned by the pointer");
	}
	ENSURE(Value::alive == 0, "all destroyed");
}
/// a copy or move that throws: the error arrives, nothing is left behind
template<typename T, typename B, bool move> void failing() {
	Value::reset();
	{
		T o; SetUp<T> s(o);
		auto live = vc_live();
		Value::throwAt = (int) vc::pick(s.n, "pickthrow");
		int v = 0;
		B& b = o;
		try { if constexpr(move) cloneMove(b); else clone(const_cast<const B&>(b)); } catch(const Err& e) { v = e.v; }
		ENSURE(v == (move ? 6 : 5), "the error reaches the caller");
		ENSURE(Value::alive == s.n && vc_live() == live, "nothing is left behind");
	}
	ENSURE(Value::alive == 0, "all destroyed");
}
/// clone of a clone, of another base
template<typename T, typename B, typename C> void across() {
	Value::reset();
	{
		T o; SetUp<T> s(o); s.data(o, true);
		B& b = o;
		auto p = clone(const_cast<const B&>(b));
		C* c = dynamic_cast<C*>(p.get());
		ENSURE(c != nullptr, "the clone has the other base");
		auto q = clone(const_cast<const C&>(*c));
		checkSame<T, C>(q, *c, s, "a copy of a copy");
		auto r = cloneMove(*q);
		checkSame<T, C>(r, *q, s, "and moved on");
	}
	ENSURE(Value::alive == 0, "all destroyed");
}
}
#define M(T, B) HARNESS(move_##T##_##B) { moved<T, B>(); } HARNESS(movefail_##T##_##B) { failing<T, B, true>(); }
#define CM(T, B) HARNESS(clone_##T##_##B) { cloned<T, B>(); } HARNESS(clonefail_##T##_##B) { failing<T, B, false>(); } M(T, B)
CM(Single, Single) CM(Impl, Abstract) CM(Impl, Impl) CM(Over, Single) CM(Over, Over) CM(Deep, Abstract) CM(Deep, Impl) CM(Deep, Deep)
CM(Deeper, Abstract) CM(Deeper, Deep) CM(Deeper, Deeper) CM(Second, Abstract) CM(Second, Second)
CM(Multi, Abstract) CM(Multi, Abstract2) CM(Multi, Multi) CM(Multi2, Abstract) CM(Multi2, Abstract2) CM(Multi2, Multi2)
CM(MultiDeep, Abstract) CM(MultiDeep, Abstract2) CM(MultiDeep, Multi) CM(Late, Single) CM(Late, Abstract2) CM(Late, Late)
M(MSingle, MSingle) M(MImpl, MAbstract) M(MImpl, MImpl) M(MOver, MSingle) M(MOver, MOver)
HARNESS(across_Multi) { across<Multi, Abstract, Abstract2>(); }
HARNESS(across_Multi2) { across<Multi2, Abstract2, Abstract>(); }
HARNESS(across_MultiDeep) { across<MultiDeep, Abstract2, Multi>(); }
HARNESS(across_Late) { across<Late, Abstract2, Single>(); }
