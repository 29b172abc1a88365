"""C26: what is documented not to throw is declared so, and conditional declarations follow their formula."""
from .tl import TUnit

PRE = r'''
#include <opt/option.hpp>
#include <array>
#include <map>
#include <memory>
#include <string>
#include <tuple>
#include <variant>
#include <vector>
#include <functional>
#include <iterator>
#include <utility>
#define I(...) static_assert(sizeof(__VA_ARGS__) > 0, "")
template<class T> T dv() noexcept;
// user types whose operations may throw: K copy ctor, M move ctor, A copy assignment, B move assignment, S own swap
template<bool K, bool M, bool A, bool B, int S> struct Th { Th(); Th(const Th&) noexcept(!K); Th(Th&&) noexcept(!M); Th& operator=(const Th&) noexcept(!A); Th& operator=(Th&&) noexcept(!B); ~Th(); int x; };
template<bool K, bool M, bool A, bool B> void swap(Th<K, M, A, B, 1>&, Th<K, M, A, B, 1>&) noexcept;
template<bool K, bool M, bool A, bool B> void swap(Th<K, M, A, B, 2>&, Th<K, M, A, B, 2>&) noexcept(false);
struct Tr { int x; }; struct ThrowAll { ThrowAll(); ThrowAll(const ThrowAll&); ThrowAll(ThrowAll&&); ThrowAll& operator=(const ThrowAll&); ThrowAll& operator=(ThrowAll&&); ~ThrowAll(); bool operator==(const ThrowAll&) const; bool operator<(const ThrowAll&) const; };
struct Amp { int x; Amp* operator&() const; }; struct Spare { bool b; ~Spare(); Spare(); Spare(const Spare&); Spare& operator=(const Spare&); };
template<> struct opt::option_traits<Spare> { static constexpr std::uintmax_t max_level = 3; static std::uintmax_t get_level(const Spare*) noexcept; static void set_level(Spare*, std::uintmax_t) noexcept; };
#define MARKED(T) template<> struct opt::option_traits<T> { static constexpr std::uintmax_t max_level = 3; static std::uintmax_t get_level(const T*) noexcept; static void set_level(T*, std::uintmax_t) noexcept; }
// operations that never throw, whatever T does
template<class T> struct plain {
    using O = opt::option<T>; using It = typename O::iterator; using Ci = typename O::const_iterator;
    CHECK(noexcept(O()) && std::is_nothrow_default_constructible_v<O>); CHECK(noexcept(O(opt::none))); CHECK((std::is_nothrow_constructible_v<O, opt::none_t> && std::is_nothrow_constructible_v<O, const opt::none_t&>)); CHECK(noexcept(O{}));
    CHECK(noexcept(dv<O&>() = opt::none)); CHECK((std::is_nothrow_assignable_v<O&, opt::none_t>)); CHECK(std::is_nothrow_destructible_v<O>);
    CHECK(noexcept(dv<O&>().reset())); CHECK(noexcept(dv<const O&>().has_value())); CHECK(noexcept(bool(dv<const O&>()))); CHECK(noexcept(dv<O&>() ? 1 : 2));
    CHECK(noexcept(dv<O&>().begin())); CHECK(noexcept(dv<const O&>().begin())); CHECK(noexcept(dv<O&>().end())); CHECK(noexcept(dv<const O&>().end()));
    CHECK(noexcept(dv<O&>().get())); CHECK(noexcept(dv<const O&>().get())); CHECK(noexcept(dv<O>().get())); CHECK(noexcept(dv<const O>().get()));
    CHECK(noexcept(*dv<O&>())); CHECK(noexcept(*dv<const O&>())); CHECK(noexcept(*dv<O>())); CHECK(noexcept(*dv<const O>()));
    CHECK(noexcept(dv<O&>().operator->())); CHECK(noexcept(dv<const O&>().operator->()));
    CHECK(noexcept(dv<O&>().get_unchecked())); CHECK(noexcept(dv<const O&>().get_unchecked())); CHECK(noexcept(dv<O>().get_unchecked())); CHECK(noexcept(dv<const O>().get_unchecked()));
    CHECK(noexcept(dv<O&>().ptr_or_null())); CHECK(noexcept(dv<const O&>().ptr_or_null()));
    CHECK(noexcept(dv<const O&>() == opt::none) && noexcept(opt::none == dv<const O&>())); CHECK(noexcept(dv<const O&>() != opt::none) && noexcept(opt::none != dv<const O&>()));
    CHECK(noexcept(dv<const O&>() < opt::none) && noexcept(opt::none < dv<const O&>())); CHECK(noexcept(dv<const O&>() > opt::none) && noexcept(opt::none > dv<const O&>()));
    CHECK(noexcept(dv<const O&>() <= opt::none) && noexcept(opt::none <= dv<const O&>())); CHECK(noexcept(dv<const O&>() >= opt::none) && noexcept(opt::none >= dv<const O&>()));
    CHECK(noexcept(opt::io(dv<O&>())) && noexcept(opt::io(dv<const O&>()))); CHECK(noexcept(opt::io(dv<O&>(), dv<std::string&>())) && noexcept(opt::io(dv<const O&>(), dv<const std::string&>())));
    CHECK(noexcept(opt::from_nullable(dv<std::remove_reference_t<T>*>())));
};
template<class T> struct swp { using O = opt::option<T>; static constexpr bool w = std::is_nothrow_move_constructible_v<T> && std::is_nothrow_swappable_v<T>;
    CHECK(noexcept(dv<O&>().swap(dv<O&>())) == w); CHECK(noexcept(swap(dv<O&>(), dv<O&>())) == w); CHECK(noexcept(opt::swap(dv<O&>(), dv<O&>())) == w); CHECK(std::is_nothrow_swappable_v<O> == w); };
template<class T> struct spec { using O = opt::option<T>;
    CHECK(std::is_nothrow_copy_constructible_v<O> == std::is_nothrow_copy_constructible_v<T>); CHECK(std::is_nothrow_move_constructible_v<O> == std::is_nothrow_move_constructible_v<T>);
    CHECK(std::is_nothrow_copy_assignable_v<O> == (std::is_nothrow_copy_constructible_v<T> && std::is_nothrow_copy_assignable_v<T>)); CHECK(std::is_nothrow_move_assignable_v<O> == (std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_assignable_v<T>)); };
// operations that run user code that may throw, they must not promise anything
template<class T> struct loud { using O = opt::option<T>; using N = std::remove_const_t<T>;
    CHECK(!noexcept(O(dv<const N&>()))); CHECK(!noexcept(O(dv<N>()))); CHECK(!noexcept(O(std::in_place, dv<const N&>()))); CHECK(!noexcept(dv<const O&>().value())); CHECK(!noexcept(dv<O>().value_or_throw()));
    CHECK(!noexcept(dv<O&>().emplace(dv<const N&>()))); CHECK(!noexcept(dv<O&>().try_emplace(dv<const N&>()))); CHECK(!noexcept(dv<const O&>().value_or(dv<N>()))); CHECK(!noexcept(dv<const O&>().map(dv<int(*)(const N&)>()))); CHECK(!noexcept(dv<const O&>().inspect(dv<void(*)(const N&)>())));
    CHECK(!noexcept(dv<const O&>().or_else(dv<O(*)()>()))); CHECK(!noexcept(dv<const O&>().filter(dv<bool(*)(const N&)>()))); CHECK(!noexcept(dv<O&>().take())); CHECK(!noexcept(opt::make_option(dv<N>()))); CHECK(!noexcept(opt::zip(dv<const O&>()))); };
'''
T = ["int", "bool", "double", "Tr", "Amp", "Spare", "ThrowAll", "const int", "const ThrowAll", "const Spare", "int&", "const std::string&", "ThrowAll&", "std::string", "std::vector<ThrowAll>", "std::unique_ptr<int>", "opt::option<int>", "opt::option<ThrowAll>", "opt::option<opt::option<std::string>>", "std::pair<int, ThrowAll>", "std::tuple<bool, ThrowAll>", "opt::sentinel<int, -1>", "opt::enforce<float>", "std::string_view", "int*", "std::function<void()>"]
items = ""
for k, t in enumerate(T):
    items += "@ plain_%d | C26 | ok |\nI(::plain<%s>);\n" % (k, t)
items += "@ special | C26 C24 | ok |\n"
for m in range(16):
    b = ", ".join("true" if m >> i & 1 else "false" for i in range(4))
    for s in (0, 1, 2):
        items += "I(::swp<::Th<%s, %d>>); " % (b, s)
    items += "I(::spec<::Th<%s, 0>>);\n" % b
# every mixture of trivial, non-throwing and throwing special members, with and without a spare representation
KD = {"t": (") = default", ""), "n": (") noexcept", ""), "u": (")", "")}
for cc in KD:
    for mc in KD:
        items += "@ mixed_%s%s | C26 | ok |\n" % (cc, mc)
        for ca in KD:
            for ma in KD:
                for dt in (0, 1):
                    for tr in (0, 1):
                        x = "Y_%s%s%s%s%d%d" % (cc, mc, ca, ma, dt, tr)
                        items += "struct %s { %s(); %s(const %s&%s; %s(%s&&%s; %s& operator=(const %s&%s; %s& operator=(%s&&%s; %s int v; }; " % (
                            x, x, x, x, KD[cc][0], x, x, KD[mc][0], x, x, KD[ca][0], x, x, KD[ma][0], "~%s();" % x if dt else "")
                        if tr:
                            items += "} MARKED(w_mixed_%s%s::%s); namespace w_mixed_%s%s { " % (cc, mc, x, cc, mc)
                        items += "I(::spec<%s>); " % x
        items += "\n"
items += r'''
@ special_plain | C26 C24 | ok |
I(::swp<int>); I(::swp<bool>); I(::swp<std::string>); I(::swp<Tr>); I(::swp<ThrowAll>); I(::swp<Spare>); I(::swp<std::unique_ptr<int>>); I(::swp<opt::option<int>>); I(::swp<opt::option<ThrowAll>>); I(::swp<std::pair<bool, ThrowAll>>); I(::spec<int>); I(::spec<std::string>); I(::spec<ThrowAll>); I(::spec<Spare>); I(::spec<opt::option<ThrowAll>>); I(::spec<opt::option<Tr>>); I(::spec<std::unique_ptr<long>>); CHECK(std::is_nothrow_copy_constructible_v<opt::option<const Tr>>); CHECK(!std::is_nothrow_copy_constructible_v<opt::option<const ThrowAll>>); CHECK(std::is_nothrow_copy_constructible_v<opt::option<ThrowAll&>> && std::is_nothrow_copy_assignable_v<opt::option<ThrowAll&>> && std::is_nothrow_move_constructible_v<opt::option<ThrowAll&>> && std::is_nothrow_move_assignable_v<opt::option<ThrowAll&>>);
CHECK(std::is_nothrow_swappable_v<opt::option<int&>>);
@ loud | C26 | ok |
I(::loud<ThrowAll>); I(::loud<Spare>); I(::loud<const ThrowAll>); I(::loud<opt::option<ThrowAll>>); I(::loud<std::pair<bool, ThrowAll>>); CHECK(!noexcept(dv<const opt::option<ThrowAll>&>() | dv<ThrowAll>())); CHECK(!noexcept(dv<opt::option<ThrowAll>>() | dv<opt::option<ThrowAll>>()));
CHECK(!noexcept(dv<const opt::option<ThrowAll>&>() == dv<const opt::option<ThrowAll>&>())); CHECK(!noexcept(dv<const opt::option<ThrowAll>&>() < dv<const opt::option<ThrowAll>&>())); CHECK(!noexcept(dv<const opt::option<ThrowAll>&>() == dv<const ThrowAll&>())); CHECK(!noexcept(dv<opt::option<ThrowAll>&>() = dv<const ThrowAll&>())); CHECK(!noexcept(dv<opt::option<ThrowAll>&>() |= dv<ThrowAll>())); CHECK(!noexcept(opt::unzip(dv<opt::option<std::pair<int, ThrowAll>>>()))); CHECK(!noexcept(opt::option_cast<ThrowAll>(dv<opt::option<ThrowAll>&>()))); CHECK(!noexcept(opt::flatten(dv<opt::option<opt::option<ThrowAll>>>())));
@ swap_mixed | C26 | ok |
using A = ::Th<false, false, false, false, 0>; using B = ::Th<false, true, false, false, 0>; struct X; struct Y { Y(Y&&) noexcept; Y(X&&) noexcept; Y& operator=(Y&&) noexcept; }; struct X { X(X&&) noexcept; X(Y&&) noexcept; X& operator=(X&&) noexcept; friend void swap(X&, Y&) noexcept; friend void swap(Y&, X&) noexcept; };
using P = opt::option<X>; using Q = opt::option<Y>; CHECK(noexcept(dv<P&>().swap(dv<Q&>()))); CHECK(noexcept(dv<Q&>().swap(dv<P&>()))); CHECK(noexcept(opt::swap(dv<P&>(), dv<Q&>()))); CHECK(noexcept(swap(dv<Q&>(), dv<P&>())));
struct Z; struct W { W(W&&) noexcept; W(Z&&) noexcept; W& operator=(W&&) noexcept; }; struct Z { Z(Z&&) noexcept(false); Z(W&&) noexcept; Z& operator=(Z&&) noexcept; friend void swap(Z&, W&) noexcept; friend void swap(W&, Z&) noexcept; };
CHECK(!noexcept(dv<opt::option<W>&>().swap(dv<opt::option<Z>&>()))); CHECK(!noexcept(dv<opt::option<Z>&>().swap(dv<opt::option<W>&>()))); CHECK(!noexcept(opt::swap(dv<opt::option<Z>&>(), dv<opt::option<W>&>())));
struct V; struct R { R(R&&) noexcept; R(V&&) noexcept; R& operator=(R&&) noexcept; }; struct V { V(V&&) noexcept; V(R&&) noexcept; V& operator=(V&&) noexcept; friend void swap(V&, R&); friend void swap(R&, V&); };
CHECK(!noexcept(dv<opt::option<R>&>().swap(dv<opt::option<V>&>()))); CHECK(!noexcept(opt::swap(dv<opt::option<V>&>(), dv<opt::option<R>&>())));
@ swap_mixed_converting | C26 C05 | ok |
struct T1; struct S1 { S1(S1&&) noexcept; S1(T1&&) noexcept(false); S1& operator=(S1&&) noexcept; }; struct T1 { T1(T1&&) noexcept; T1(S1&&) noexcept; T1& operator=(T1&&) noexcept; friend void swap(S1&, T1&) noexcept; friend void swap(T1&, S1&) noexcept; };
CHECK(!noexcept(dv<opt::option<S1>&>().swap(dv<opt::option<T1>&>()))); CHECK(!noexcept(dv<opt::option<T1>&>().swap(dv<opt::option<S1>&>()))); CHECK(!noexcept(opt::swap(dv<opt::option<S1>&>(), dv<opt::option<T1>&>()))); CHECK(!noexcept(swap(dv<opt::option<T1>&>(), dv<opt::option<S1>&>())));
struct T2; struct S2 { S2(S2&&) noexcept; S2(T2&&) noexcept; S2& operator=(S2&&) noexcept; ~S2(); bool flag; }; struct T2 { T2(T2&&) noexcept; T2(S2&&) noexcept; T2& operator=(T2&&) noexcept; ~T2(); friend void swap(S2&, T2&) noexcept; friend void swap(T2&, S2&) noexcept; };
CHECK(noexcept(dv<opt::option<S2>&>().swap(dv<opt::option<T2>&>()))); CHECK(noexcept(opt::swap(dv<opt::option<T2>&>(), dv<opt::option<S2>&>())));
@ helpers | C26 | ok |
using P = opt::option<std::pair<int, ThrowAll>>; using V = std::variant<int, ThrowAll>; CHECK(noexcept(opt::get<0>(dv<P&>())) && noexcept(opt::get<1>(dv<const P&>())) && noexcept(opt::get<1>(dv<P>())) && noexcept(opt::get<0>(dv<const P>()))); CHECK(noexcept(opt::get<int>(dv<P&>())) && noexcept(opt::get<ThrowAll>(dv<const P&>())) && noexcept(opt::get<ThrowAll>(dv<P>())) && noexcept(opt::get<int>(dv<const P>()))); CHECK(noexcept(opt::get<0>(dv<V&>())) && noexcept(opt::get<1>(dv<const V&>())) && noexcept(opt::get<1>(dv<V>())) && noexcept(opt::get<0>(dv<const V>()))); CHECK(noexcept(opt::get<int>(dv<V&>())) && noexcept(opt::get<ThrowAll>(dv<const V&>())) && noexcept(opt::get<ThrowAll>(dv<V>())) && noexcept(opt::get<int>(dv<const V>())));
using C = std::vector<ThrowAll>; CHECK(noexcept(opt::at(dv<C&>(), 0)) && noexcept(opt::at(dv<const C&>(), 0)) && noexcept(opt::at(dv<std::array<int, 3>>(), 0))); CHECK(noexcept(opt::at_front(dv<C&>())) && noexcept(opt::at_back(dv<const C&>())) && noexcept(opt::at_front(dv<std::string>()))); CHECK(noexcept(opt::as_option(dv<bool>())) && noexcept(opt::as_option(dv<const double&>())) && noexcept(opt::as_option(dv<int*>()))); CHECK(noexcept(opt::from_nullable(dv<const ThrowAll*>()))); CHECK(noexcept(dv<const opt::bad_access&>().what()) && std::is_nothrow_default_constructible_v<opt::bad_access> && std::is_nothrow_copy_constructible_v<opt::bad_access> && std::is_nothrow_destructible_v<opt::bad_access>);
@ reserved_copies | C26 C16 | ok |
using O = opt::option<ThrowAll&>; CHECK(noexcept(dv<O&>() = dv<const O&>()) && noexcept(O(dv<const O&>())) && noexcept(dv<O&>() = opt::none)); CHECK(noexcept(dv<O&>().get()));
@ hashes | C26 C14 | ok | pre
CHECK(noexcept(std::hash<opt::option<HashOk>>{}(dv<const opt::option<HashOk>&>()))); CHECK(!noexcept(std::hash<opt::option<HashThrows>>{}(dv<const opt::option<HashThrows>&>()))); CHECK(!noexcept(std::hash<opt::option<const HashThrows>>{}(dv<const opt::option<const HashThrows>&>()))); CHECK(noexcept(std::hash<opt::option<const HashOk>>{}(dv<const opt::option<const HashOk>&>()))); CHECK(noexcept(std::hash<opt::option<HashThrows&>>{}(dv<const opt::option<HashThrows&>&>()))); CHECK(noexcept(std::hash<opt::option<int>>{}(dv<const opt::option<int>&>()))); CHECK(!noexcept(std::hash<opt::option<opt::option<HashThrows>>>{}(dv<const opt::option<opt::option<HashThrows>>&>())));
@ wrappers | C26 C28 | ok |
struct Eq { bool operator()(const ThrowAll&, int) const noexcept; }; struct Set { void operator()(ThrowAll&, int) const noexcept; }; struct EqS { bool operator()(const Spare&, int) const noexcept; }; struct SetS { void operator()(Spare&, int) const noexcept; };
template<class W, class T> struct loud { CHECK((!std::is_nothrow_constructible_v<W, const T&>)); CHECK((!std::is_nothrow_constructible_v<W, T>)); CHECK(!std::is_nothrow_default_constructible_v<W>); CHECK(!std::is_nothrow_copy_constructible_v<W>); CHECK(!std::is_nothrow_move_constructible_v<W>); CHECK((!std::is_nothrow_assignable_v<W&, const T&>)); CHECK((!std::is_nothrow_assignable_v<W&, T>)); CHECK(!std::is_nothrow_copy_assignable_v<W>); CHECK(!std::is_nothrow_move_assignable_v<W>); };
struct L { ThrowAll a; bool b; L(const ThrowAll&) ; L(const L&); L(); L& operator=(const L&); L& operator=(const ThrowAll&); }; struct G { ThrowAll a; };
I(loud<opt::enforce<Spare>, Spare>); I(loud<opt::member<L, &L::b>, L>); I(loud<opt::member<L, &L::b>, ThrowAll>); I(loud<opt::sentinel_f<ThrowAll, Eq, Set, 1>, ThrowAll>); I(loud<opt::sentinel_f<Spare, EqS, SetS, 1>, Spare>); I(loud<opt::sentinel<ThrowAll, 1>, ThrowAll>); CHECK((!std::is_nothrow_constructible_v<opt::enforce<G>, const ThrowAll&>)); CHECK((!std::is_nothrow_constructible_v<opt::sentinel<std::string, 1>, const char*>)); CHECK(!noexcept(dv<opt::enforce<std::string>&>() = "abc")); CHECK(!noexcept(dv<opt::sentinel<std::string, 1>&>() = dv<const std::string&>()));
'''
HASH = r'''
struct HashOk { int x; }; struct HashThrows { int x; };
template<> struct std::hash<HashOk> { std::size_t operator()(const HashOk&) const noexcept; };
template<> struct std::hash<HashThrows> { std::size_t operator()(const HashThrows&) const; };
'''
UNITS = [TUnit("noexcepts", PRE + HASH, items, defs=("OPTION_USE_PFR=0",), chunk=12)]
