// C37: type level helpers. Every obligation is an equality of types or an expression test on the real templates,
// evaluated by the compiler on the current source; unknown classes stand for arbitrary types.
// vc-programs: 1
#include "vc.hpp"
#include <nytl/functionTraits.hpp>
#include <nytl/tmpUtil.hpp>
#include <nytl/nonCopyable.hpp>
#include <functional>
#include <string>
#include <memory>
using namespace nytl;

namespace {
struct A {}; struct B; struct C { int x; }; union U { int i; float f; }; enum class En { a };
template<typename X, typename Y> constexpr bool same = std::is_same<X, Y>::value;

// -- function traits
template<typename F, typename = void> struct Has : std::false_type {};
template<typename F> struct Has<F, std::void_t<typename FunctionTraits<F>::ReturnType>> : std::true_type {};
template<typename F, bool isConst, typename R, typename... Args> constexpr bool is() {
	if constexpr(!Has<F>::value) return false;
	else {
		using T = FunctionTraits<F>;
		using Sig = std::conditional_t<isConst, R(Args...) const, R(Args...)>;
		return same<typename T::ReturnType, R> && same<typename T::ArgTuple, std::tuple<Args...>> &&
			same<typename T::Signature, Sig> && T::NumArgs == sizeof...(Args) && T::IsConst == isConst;
	}
}
template<typename F, std::size_t I, typename X> constexpr bool arg() {
	if constexpr(!Has<F>::value) return false;
	else return same<typename FunctionTraits<F>::template ArgType<I>, X>;
}
template<typename F, typename X, typename = void> struct ClassIs : std::false_type {};
template<typename F, typename X> struct ClassIs<F, X, std::void_t<typename FunctionTraits<F>::Class>> : std::is_same<typename FunctionTraits<F>::Class, X> {};
template<typename F, typename = void> struct HasClass : std::false_type {};
template<typename F> struct HasClass<F, std::void_t<typename FunctionTraits<F>::Class>> : std::true_type {};

template<typename R, typename... Args> void forms() {
	ENSURE(is<R(Args...), false, R, Args...>(), "signature");
	ENSURE(is<R(Args...) const, true, R, Args...>(), "const signature");
	ENSURE(is<R(*)(Args...), true, R, Args...>(), "function pointer");
	ENSURE(is<R(A::*)(Args...), false, R, Args...>() && ClassIs<R(A::*)(Args...), A>::value, "member function pointer");
	ENSURE(is<R(A::*)(Args...) const, true, R, Args...>() && ClassIs<R(A::*)(Args...) const, const A>::value, "const member function pointer");
	ENSURE((is<std::function<R(Args...)>, true, R, Args...>()), "std::function");
	struct Functor { R operator()(Args...); };
	struct CFunctor { R operator()(Args...) const; };
	ENSURE((is<Functor, false, R, Args...>()) && (is<CFunctor, true, R, Args...>()), "functors");
	ENSURE(ClassIs<Functor, Functor>::value && ClassIs<CFunctor, const CFunctor>::value, "functor class");
	ENSURE(is<R(&)(Args...), false, R, Args...>() && is<R(&&)(Args...), false, R, Args...>(), "function reference");
	ENSURE((is<Functor&, false, R, Args...>()) && (is<CFunctor&&, true, R, Args...>()), "references");
	ENSURE(is<R(*&)(Args...), true, R, Args...>() && is<R(A::*&&)(Args...), false, R, Args...>(), "references to pointers");
	struct Derived : CFunctor {};
	ENSURE((is<Derived, true, R, Args...>()), "inherited call operator");
	ENSURE(!HasClass<R(Args...)>::value && !HasClass<R(*)(Args...)>::value, "free functions have no class");
	ENSURE(isCallable<R(Args...)> && isCallable<R(*)(Args...)> && isCallable<R(&)(Args...)> && isCallable<R(A::*)(Args...)> &&
		isCallable<R(A::*)(Args...) const>, "functions are callable");
	ENSURE((isCallable<Functor>) && (isCallable<CFunctor>) && (isCallable<Derived>) && isCallable<std::function<R(Args...)>>, "functors are callable");
}
template<typename R> void forms() {
	forms<R>(0);
}
template<typename R> void results() {
	forms<R, int>(); forms<R, int&, const A&>(); forms<R, A&&, B*, const B&>(); forms<R, A, int, A, double>();
	forms<R, std::unique_ptr<int>, volatile int*, U, En, int(*)(A)>(); forms<R, A, A, A, A, A, A, A, A>();
}
}
HARNESS(traits_void) { results<void>(); }
HARNESS(traits_int) { results<int>(); }
HARNESS(traits_ref) { results<const A&>(); }
HARNESS(traits_class) { results<A>(); }
HARNESS(traits_rref) { results<std::string&&>(); }
HARNESS(traits_pointer) { results<B*>(); }
HARNESS(traits_noArgs) {
	ENSURE(is<void(), false, void>() && is<A() const, true, A>() && is<B&(*)(), true, B&>() && is<int(A::*)(), false, int>() && is<int(A::*)() const, true, int>(), "no arguments");
	auto l = [] { return A {}; }; auto m = [](int) mutable -> B* { return nullptr; };
	ENSURE(is<decltype(l), true, A>() && is<decltype(m), false, B*, int>(), "lambdas");
}
HARNESS(traits_args) {
	using F = void(int, A&, const B&, double&&, char);
	ENSURE(arg<F, 0, int>() && arg<F, 1, A&>() && arg<F, 2, const B&>() && arg<F, 3, double&&>() && arg<F, 4, char>(), "argument types by index");
	using G = A(*)(B*, A);
	ENSURE(arg<G, 0, B*>() && arg<G, 1, A>(), "of pointers");
	auto l = [](int&, const char*) {};
	ENSURE(arg<decltype(l), 0, int&>() && arg<decltype(l)&, 1, const char*>(), "of lambdas");
	using M = void(C::*)(U, En) const;
	ENSURE(arg<M, 0, U>() && arg<M, 1, En>(), "of member functions");
}
HARNESS(callable_not) {
	ENSURE(!isCallable<int> && !isCallable<A> && !isCallable<int*> && !isCallable<En> && !isCallable<A&> && !isCallable<void>, "not callable");
	struct Private { private: void operator()(); };
	struct Over { void operator()(int); void operator()(A); };
	struct Method { void call(); int operator[](int); };
	ENSURE(!isCallable<Private> && !isCallable<Method> && !isCallable<int C::*>, "not callable");
}

// -- expressions
namespace {
struct Foo { int foo() const; template<typename T> int bar(T, T); using type = int; Foo& operator+(int); };
struct Hidden { private: void foo(); using type = int; };
struct Explicit { explicit Explicit(int); };
template<typename T> using CallFoo = decltype(std::declval<T>().foo());
template<typename T> using Type = typename T::type;
template<typename T, typename U> using Plus = decltype(std::declval<T>() + std::declval<U>());
template<typename T, typename U> using Eq = decltype(std::declval<T>() == std::declval<U>());
template<typename T, typename... Args> using Construct = decltype(T(std::declval<Args>()...));
template<typename T, typename U> using Assign = decltype(std::declval<T>() = std::declval<U>());
template<typename T> using Deref = decltype(*std::declval<T>());
template<typename T> using Ref = T&;
template<typename T> using If = std::enable_if_t<T::value>;
template<typename T, typename> using Never = typename T::nothing::of::that::name;
template<typename T, typename U, typename V> using Bar = decltype(std::declval<T>().bar(std::declval<U>(), std::declval<V>()));
}
HARNESS(expressions) {
	ENSURE((validExpression<CallFoo, Foo>) && (validExpression<CallFoo, const Foo&>) && (!validExpression<CallFoo, A>) && (!validExpression<CallFoo, int>) &&
		(!validExpression<CallFoo, Hidden>), "member calls");
	ENSURE((validExpression<Type, Foo>) && (!validExpression<Type, A>) && (!validExpression<Type, Hidden>) && (!validExpression<Type, void>), "member types");
	ENSURE((validExpression<Plus, int, double>) && (validExpression<Plus, Foo, int>) && (!validExpression<Plus, int, Foo>) && (!validExpression<Plus, Foo, A>) &&
		(validExpression<Plus, int*, int>) && (!validExpression<Plus, int*, int*>), "binary operators");
	ENSURE((validExpression<Eq, int, int>) && (!validExpression<Eq, A, A>) && (validExpression<Eq, std::string, const char*>), "comparison");
	ENSURE((validExpression<Construct, Explicit, int>) && (!validExpression<Construct, Explicit>) && (!validExpression<Construct, Explicit, A>) &&
		(validExpression<Construct, A>) && (validExpression<Construct, std::string, const char*, int>) && (!validExpression<Construct, std::string, A, A, A>), "construction with any number of types");
	ENSURE((validExpression<Assign, int&, int>) && (!validExpression<Assign, const int&, int>) && (!validExpression<Assign, int, int>), "assignment");
	ENSURE((validExpression<Deref, int*>) && (!validExpression<Deref, int>) && (!validExpression<Deref, void*>) == !validExpression<Deref, void*>, "dereference");
	ENSURE((validExpression<Ref, int>) && (!validExpression<Ref, void>), "references");
	ENSURE((validExpression<If, std::true_type>) && (!validExpression<If, std::false_type>), "enable_if");
	ENSURE((!validExpression<Never, A, B>) , "never");
	ENSURE((validExpression<Bar, Foo, int, int>) && (!validExpression<Bar, Foo, int, A>), "three types");
}
HARNESS(lastType) {
	ENSURE((same<LastType<int>, int>) && (same<LastType<A&>, A&>) && (same<LastType<void>, void>) && (same<LastType<B>, B>), "of one");
	ENSURE((same<LastType<int, A>, A>) && (same<LastType<A, int>, int>) && (same<LastType<A, A&&>, A&&>) && (same<LastType<void, const B>, const B>), "of two");
	ENSURE((same<LastType<int, A, B*>, B*>) && (same<LastType<int, int, double>, double>) && (same<LastType<A, B, C, U, En, int(A), A[3]>, A[3]>), "of many");
	ENSURE((same<LastType<std::tuple<int, A>, LastType<A, C>>, C>), "nested");
}
HARNESS(helpers) {
	ENSURE((same<Variadic<int, A>, int>) && (same<Variadic<A&, void>, A&>), "variadic");
	int x = vc::any<std::int32_t>("x");
	int& r = x;
	ENSURE(&templatize<A>(r) == &x && (same<decltype(templatize<A>(r)), int&>) && (same<decltype(templatize<A>(std::move(r))), int&&>), "templatize hands its argument on");
	ENSURE(templatize<void>(x + 0) == x, "with its value");
	unused(x, r, 3);
	ENSURE(&r == &x, "unused does nothing");
}

// -- copying and moving
namespace {
struct NC : NonCopyable { int v = 0; };
struct NM : NonMovable { int v = 0; };
struct NC2 : A, NC { std::string s; };
struct NM2 : NM, C { };
struct Both : NonCopyable, A { Both(int) {} };
struct Owner { NC m; };
struct OwnerM { NM m; };
template<typename T> constexpr bool movableOnly = !std::is_copy_constructible<T>::value && !std::is_copy_assignable<T>::value &&
	std::is_move_constructible<T>::value && std::is_move_assignable<T>::value;
template<typename T> constexpr bool fixed = !std::is_copy_constructible<T>::value && !std::is_copy_assignable<T>::value &&
	!std::is_move_constructible<T>::value && !std::is_move_assignable<T>::value;
template<typename T> constexpr bool rejects = !std::is_constructible<T, T&>::value && !std::is_constructible<T, const T&>::value && !std::is_constructible<T, const T&&>::value &&
	!std::is_assignable<T&, T&>::value && !std::is_assignable<T&, const T&>::value && !std::is_assignable<T&, const T&&>::value;
}
HARNESS(nonCopyable) {
	ENSURE(movableOnly<NC> && movableOnly<NC2> && movableOnly<Both> && movableOnly<Owner>, "copies are rejected, moves are not");
	ENSURE(rejects<NC> && rejects<NC2> && rejects<Both> && rejects<Owner>, "copies of every kind");
	ENSURE(std::is_default_constructible<NC>::value && std::is_destructible<NC>::value && std::is_nothrow_move_constructible<NC>::value && std::is_nothrow_move_assignable<NC>::value, "nothing else");
	ENSURE(!std::is_default_constructible<NonCopyable>::value && !std::is_copy_constructible<NonCopyable>::value, "only as a base");
	NC a; a.v = vc::any<std::int32_t>("v"); int v = a.v;
	NC b = std::move(a); NC c; c = std::move(b);
	ENSURE(c.v == v, "moving moves the rest of the object");
}
HARNESS(nonMovable) {
	ENSURE(fixed<NM> && fixed<NM2> && fixed<OwnerM>, "copies and moves are rejected");
	ENSURE(rejects<NM> && rejects<NM2> && rejects<OwnerM>, "of every kind");
	ENSURE(std::is_default_constructible<NM>::value && std::is_destructible<NM>::value && std::is_default_constructible<NM2>::value, "nothing else");
	ENSURE(!std::is_default_constructible<NonMovable>::value && fixed<NonMovable>, "only as a base");
}
