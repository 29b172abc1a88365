"""C25: which overloads take part, which conversions are implicit, what the operations return."""
from .tl import TUnit

PRE = r'''
#include <opt/option.hpp>
#include <any>
#include <array>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#define I(...) static_assert(sizeof(__VA_ARGS__) > 0, "")
template<class X> using rcvr = std::remove_cv_t<std::remove_reference_t<X>>;
template<class X> struct elem { static constexpr bool is = false; using type = void; };
template<class X> struct elem<opt::option<X>> { static constexpr bool is = true; using type = X; };
// docs/reference.md, "Exposition-only"
template<class T, class U> inline constexpr bool can_bind =
    std::is_same_v<std::remove_reference_t<U>, std::reference_wrapper<std::remove_const_t<std::remove_reference_t<T>>>>
    || std::is_same_v<std::remove_reference_t<U>, std::reference_wrapper<std::remove_reference_t<T>>>
    || (std::is_convertible_v<std::remove_reference_t<U>*, std::remove_reference_t<T>*> && (std::is_lvalue_reference_v<T> == std::is_lvalue_reference_v<U>));
template<class V, class T, class... A> inline constexpr bool braces = false;
template<class T, class... A> inline constexpr bool braces<decltype(T{std::declval<A>()...}, void()), T, A...> = true;
template<class T, class... A> struct init_ { static constexpr bool value = std::is_constructible_v<T, A...>; };
template<class T, bool, class... A> struct init_agg { static constexpr bool value = true; };
template<class T, class... A> struct init_agg<T, false, A...> { static constexpr bool value = braces<void, T, A...>; };
template<class T, class... A> inline constexpr bool init = std::conditional_t<std::is_aggregate_v<T>, init_agg<T, std::is_constructible_v<T, A...>, A...>, init_<T, A...>>::value;
template<class T, class O> inline constexpr bool from_opt = std::is_constructible_v<T, O&> || std::is_constructible_v<T, const O&> || std::is_constructible_v<T, O> || std::is_constructible_v<T, const O> || std::is_convertible_v<O&, T> || std::is_convertible_v<const O&, T> || std::is_convertible_v<O, T> || std::is_convertible_v<const O, T>;
template<class T, class O> inline constexpr bool asg_opt = std::is_assignable_v<T&, O&> || std::is_assignable_v<T&, const O&> || std::is_assignable_v<T&, O> || std::is_assignable_v<T&, const O>;
// converting construction and assignment from option<X>, whose value is handed on as Q
template<bool Ref, class T, class X, class Q> struct conv_ { static constexpr bool en = false, ex = false, as = false; };
template<class T, class X, class Q> struct conv_<true, T, X, Q> { static constexpr bool en = can_bind<T, X>, im = en, as = en; };
template<class T, class X, class Q> struct conv_<false, T, X, Q> {
    using O = opt::option<X>;
    static constexpr bool en = init<T, Q> && (std::is_same_v<std::remove_cv_t<T>, bool> || !from_opt<T, O>), im = en && std::is_convertible_v<Q, T>;
    static constexpr bool as = init<T, Q> && std::is_assignable_v<T&, Q> && !from_opt<T, O> && !asg_opt<T, O>;
};
struct no_conv { static constexpr bool en = false, im = false, as = false; };
template<class T, class X, bool Same> struct conv_l : conv_<std::is_reference_v<T>, T, X, const X&> {};
template<class T, class X, bool Same> struct conv_r : conv_<std::is_reference_v<T>, T, X, X&&> {};
template<class T, class X> struct conv_l<T, X, true> : no_conv {};
template<class T, class X> struct conv_r<T, X, true> : no_conv {};
template<class T> struct conv_l<T, void, false> : no_conv {};
template<class T> struct conv_r<T, void, false> : no_conv {};
template<bool Ref, class T, class U> struct val_ { static constexpr bool en = can_bind<T, U> && !elem<rcvr<U>>::is, im = en, as = can_bind<T, U>; };
template<class T, class U> struct val_<false, T, U> { static constexpr bool en = init<T, U> && !(std::is_same_v<std::remove_cv_t<T>, bool> && elem<rcvr<U>>::is), im = en && std::is_convertible_v<U, T>, as = init<T, U> && std::is_assignable_v<T&, U>; };
template<class T, class U, bool Same> struct val : val_<std::is_reference_v<T>, T, U> {};
template<class T, class U> struct val<T, U, true> : no_conv {};
template<class T, class U> struct ov {
    using O = opt::option<T>; using V = rcvr<U>; using X = typename elem<V>::type;
    static constexpr bool none = std::is_same_v<V, opt::none_t>, ip = std::is_same_v<V, std::in_place_t>, same = std::is_same_v<V, O>;
    static constexpr bool rvalue = !std::is_reference_v<U> && !std::is_const_v<U>;
    using L = conv_l<T, X, same>; using R = std::conditional_t<rvalue, conv_r<T, X, same>, no_conv>; using VA = val<T, U, same || none || ip>;
    static constexpr bool special = same && (std::is_reference_v<T> || std::is_copy_constructible_v<T> || (rvalue && std::is_move_constructible_v<T>));
    static constexpr bool special_as = same && (std::is_reference_v<T> || (std::is_copy_constructible_v<T> && std::is_copy_assignable_v<T>) || (rvalue && std::is_move_constructible_v<T> && std::is_move_assignable_v<T>));
    static constexpr bool en = none || special || VA::en || L::en || R::en, im = none || special || VA::im || (R::en ? R::im : L::im);
    CHECK(std::is_constructible_v<O, U> == en || ip);
    CHECK(std::is_convertible_v<U, O> == im || ip);
    static constexpr bool tmp_as = im && !same && std::is_move_assignable_v<O>;
    static constexpr bool as = none || special_as || VA::as || L::as || R::as || tmp_as;
    CHECK(std::is_assignable_v<O&, U> == as || ip);
};
template<class T, class V> struct all4 { I(ov<T, V&>); I(ov<T, const V&>); I(ov<T, V>); I(ov<T, const V>); };
template<class T, class... V> struct all { static constexpr std::size_t n = (0 + ... + sizeof(all4<T, V>)) + (0 + ... + sizeof(all4<T, opt::option<V>>)) + (0 + ... + sizeof(all4<T, opt::option<opt::option<V>>>)); I(char[n]); };
struct Base { int x; Base(int); }; struct Der : Base { Der(); }; struct Impl { Impl(int); }; struct Expl { explicit Expl(int); Expl& operator=(int); }; struct ExplNA { explicit ExplNA(int); };
struct MO { MO(MO&&); MO& operator=(MO&&); MO(int); }; struct NA { const int x; NA(int); }; struct FromOpt { FromOpt(opt::option<int>); FromOpt(int); FromOpt& operator=(int); }; struct AsgOpt { AsgOpt(int); AsgOpt& operator=(int); AsgOpt& operator=(const opt::option<int>&); };
struct LOnly { LOnly(int&); LOnly& operator=(int&); }; struct ROnly { ROnly(int&&); ROnly& operator=(int&&); }; struct COnly { COnly(const int&) = delete; COnly(int&&); }; struct Agg { int a; double b; }; struct ConvI { operator int() const; }; struct ConvL { operator int() &; }; struct ConvE { explicit operator int() const; }; struct ToImpl { operator Impl(); };
struct FOl { FOl(int); FOl(opt::option<int>&); }; struct FOr { FOr(int); FOr(opt::option<int>&&); }; struct FOc { FOc(int); FOc(const opt::option<int>&); FOc(opt::option<int>&) = delete; FOc(opt::option<int>&&) = delete; FOc(const opt::option<int>&&) = delete; }; struct FOq { FOq(int); FOq(const opt::option<int>&&); FOq(opt::option<int>&&) = delete; };
struct EOl { explicit EOl(int); explicit EOl(opt::option<int>&); }; struct EOr { explicit EOr(int); explicit EOr(opt::option<int>&&); }; struct EOc { explicit EOc(int); explicit EOc(const opt::option<int>&); EOc(opt::option<int>&) = delete; EOc(opt::option<int>&&) = delete; EOc(const opt::option<int>&&) = delete; }; struct EOq { explicit EOq(int); explicit EOq(const opt::option<int>&&); EOq(opt::option<int>&&) = delete; };
struct AOl { explicit AOl(int); AOl& operator=(int); AOl& operator=(opt::option<int>&); }; struct AOr { explicit AOr(int); AOr& operator=(int); AOr& operator=(opt::option<int>&&); }; struct AOc { explicit AOc(int); AOc& operator=(int); AOc& operator=(const opt::option<int>&); AOc& operator=(opt::option<int>&) = delete; AOc& operator=(opt::option<int>&&) = delete; AOc& operator=(const opt::option<int>&&) = delete; }; struct AOq { explicit AOq(int); AOq& operator=(int); AOq& operator=(const opt::option<int>&&); AOq& operator=(opt::option<int>&&) = delete; };
struct LOnlyE { explicit LOnlyE(const int&); LOnlyE& operator=(const int&); LOnlyE& operator=(int&&) = delete; }; struct ROnlyE { explicit ROnlyE(int&&); ROnlyE& operator=(int&&); }; struct CtorL { explicit CtorL(const int&); explicit CtorL(int&&) = delete; CtorL& operator=(int); }; struct CtorR { explicit CtorR(int&&); CtorR& operator=(int); }; struct ImR { explicit ImR(const int&); ImR(int&&); ImR& operator=(int) = delete; };
struct Imm { Imm(int); Imm(const Imm&) = delete; Imm& operator=(const Imm&) = delete; }; enum En { en_a }; enum class Ec { a };
'''
TS = ["int", "long", "double", "bool", "const int", "const bool", "std::string", "const std::string", "Impl", "Expl", "ExplNA", "MO", "NA", "FromOpt", "AsgOpt", "FOl", "FOr", "FOc", "FOq", "EOl", "EOr", "EOc", "EOq", "AOl", "AOr", "AOc", "AOq", "LOnlyE", "ROnlyE", "CtorL", "CtorR", "ImR", "LOnly", "ROnly", "COnly", "Agg", "En", "Ec", "Imm", "Base*", "const void*",
      "std::unique_ptr<Base>", "std::string_view", "std::function<void()>", "std::any", "std::nullptr_t", "std::pair<int, long>", "std::reference_wrapper<int>", "opt::option<int>", "opt::option<opt::option<int>>", "opt::option<bool>", "opt::option<std::string>", "opt::option<Expl>", "std::variant<int, std::string>", "std::vector<int>",
      "int&", "const int&", "const long&", "Base&", "const Base&", "std::string&", "const std::string&", "int&&", "Base&&", "opt::option<int>&", "const opt::option<int>&", "std::reference_wrapper<int>&", "int* const", "volatile int&"]
US = ["int", "long", "bool", "double", "const char*", "std::string", "Der", "Base", "Base*", "Der*", "Impl", "Expl", "MO", "NA", "FromOpt", "AsgOpt", "Agg", "ConvI", "ConvL", "ConvE", "ToImpl", "En", "Ec", "std::unique_ptr<Der>", "std::string_view", "std::nullptr_t", "std::reference_wrapper<int>", "std::reference_wrapper<Base>", "std::reference_wrapper<const int>"]
EXTRA = ["opt::none_t", "std::pair<int, int>", "opt::option<int&>", "opt::option<Base&>", "opt::option<const int&>", "opt::option<int&&>", "opt::option<std::string&>", "opt::option<const int>", "opt::option<LOnly>", "Imm", "std::vector<int>", "opt::option<opt::option<int&>>"]


def matrix():
    out = ""
    for k, t in enumerate(TS):
        n = "".join(c if c.isalnum() else "_" for c in t) + "_%d" % k
        out += "@ ctor_%s | C25 | ok |\nI(::all<%s, %s>); %s\n" % (n, t, ", ".join(US), " ".join("I(::all4<%s, %s>);" % (t, u) for u in EXTRA))
    return out



RES = r"""
template<class T> struct tag {}; struct S { int i; bool operator==(const S&) const; }; struct MvO { MvO(MvO&&); MvO& operator=(MvO&&); };
template<class A, class B> inline constexpr bool is = std::is_same_v<A, B>;
struct Spy { template<class X> tag<X&&> operator()(X&&) const; };
struct SpyO { template<class X> opt::option<tag<X&&>> operator()(X&&) const; };
template<class E> struct SpyB { bool operator()(E) const; template<class X, class = std::enable_if_t<!is<X&&, E>>> bool operator()(X&&) const = delete; };
template<class E> struct SpyD { tag<E> operator()() const; };
template<class X> X dv() noexcept;
// L lvalue access, C const access, R rvalue access, K const rvalue access
template<class T, class L, class C, class R, class K> struct acc {
    using O = opt::option<T>; using N = std::remove_cv_t<T>;
    CHECK(is<typename O::value_type, T>);
    CHECK(is<decltype(dv<O&>().get()), L>); CHECK(is<decltype(dv<const O&>().get()), C>); CHECK(is<decltype(dv<O>().get()), R>); CHECK(is<decltype(dv<const O>().get()), K>);
    CHECK(is<decltype(*dv<O&>()), L>); CHECK(is<decltype(*dv<const O&>()), C>); CHECK(is<decltype(*dv<O>()), R>); CHECK(is<decltype(*dv<const O>()), K>);
    CHECK(is<decltype(dv<O&>().get_unchecked()), L>); CHECK(is<decltype(dv<const O&>().get_unchecked()), C>); CHECK(is<decltype(dv<O>().get_unchecked()), R>); CHECK(is<decltype(dv<const O>().get_unchecked()), K>);
    CHECK(is<decltype(dv<O&>().value()), L>); CHECK(is<decltype(dv<const O&>().value()), C>); CHECK(is<decltype(dv<O>().value()), R>); CHECK(is<decltype(dv<const O>().value()), K>);
    CHECK(is<decltype(dv<O&>().value_or_throw()), L>); CHECK(is<decltype(dv<const O&>().value_or_throw()), C>); CHECK(is<decltype(dv<O>().value_or_throw()), R>); CHECK(is<decltype(dv<const O>().value_or_throw()), K>);
    using LP = std::remove_reference_t<L>*; using CP = std::remove_reference_t<C>*;
    CHECK(is<decltype(dv<O&>().operator->()), LP>); CHECK(is<decltype(dv<const O&>().operator->()), CP>); CHECK(is<decltype(dv<O&>().ptr_or_null()), LP>); CHECK(is<decltype(dv<const O&>().ptr_or_null()), CP>);
    CHECK(is<decltype(dv<O&>().has_value()), bool>); CHECK(is<decltype(dv<O&>().reset()), void>); CHECK(is<decltype(bool(dv<O&>())), bool>);
    CHECK(is<decltype(dv<O&>().map(Spy{})), opt::option<tag<L>>>); CHECK(is<decltype(dv<const O&>().map(Spy{})), opt::option<tag<C>>>); CHECK(is<decltype(dv<O>().map(Spy{})), opt::option<tag<R>>>); CHECK(is<decltype(dv<const O>().map(Spy{})), opt::option<tag<K>>>);
    CHECK(is<decltype(dv<O&>().and_then(SpyO{})), opt::option<tag<L>>>); CHECK(is<decltype(dv<const O&>().and_then(SpyO{})), opt::option<tag<C>>>); CHECK(is<decltype(dv<O>().and_then(SpyO{})), opt::option<tag<R>>>); CHECK(is<decltype(dv<const O>().and_then(SpyO{})), opt::option<tag<K>>>);
    CHECK(is<decltype(dv<O&>().map_or(tag<L>{}, Spy{})), tag<L>>); CHECK(is<decltype(dv<const O&>().map_or(tag<C>{}, Spy{})), tag<C>>); CHECK(is<decltype(dv<O>().map_or(tag<R>{}, Spy{})), tag<R>>); CHECK(is<decltype(dv<const O>().map_or(tag<K>{}, Spy{})), tag<K>>);
    CHECK(is<decltype(dv<O&>().map_or_else(SpyD<L>{}, Spy{})), tag<L>>); CHECK(is<decltype(dv<const O&>().map_or_else(SpyD<C>{}, Spy{})), tag<C>>); CHECK(is<decltype(dv<O>().map_or_else(SpyD<R>{}, Spy{})), tag<R>>); CHECK(is<decltype(dv<const O>().map_or_else(SpyD<K>{}, Spy{})), tag<K>>);
    CHECK(is<decltype(dv<O&>().has_value_and(SpyB<L>{})), bool>); CHECK(is<decltype(dv<const O&>().has_value_and(SpyB<C>{})), bool>); CHECK(is<decltype(dv<O>().has_value_and(SpyB<R>{})), bool>); CHECK(is<decltype(dv<const O>().has_value_and(SpyB<K>{})), bool>);
    CHECK(is<decltype(dv<O&>().inspect(SpyB<L>{})), O&>); CHECK(is<decltype(dv<const O&>().inspect(SpyB<C>{})), const O&>); CHECK(is<decltype(dv<O>().inspect(SpyB<R>{})), O&>); CHECK(is<decltype(dv<const O>().inspect(SpyB<K>{})), const O&>);
    CHECK(is<typename std::iterator_traits<typename O::iterator>::reference, L>); CHECK(is<typename std::iterator_traits<typename O::const_iterator>::reference, C>); CHECK(is<typename std::iterator_traits<typename O::iterator>::iterator_category, std::random_access_iterator_tag>); CHECK(is<typename std::iterator_traits<typename O::iterator>::pointer, LP>); CHECK(is<typename std::iterator_traits<typename O::const_iterator>::pointer, CP>); CHECK(is<typename std::iterator_traits<typename O::iterator>::difference_type, std::ptrdiff_t>);
    CHECK(is<decltype(dv<O&>().begin()), typename O::iterator> && is<decltype(dv<O&>().end()), typename O::iterator>); CHECK(is<decltype(dv<const O&>().begin()), typename O::const_iterator> && is<decltype(dv<const O&>().end()), typename O::const_iterator>);
    CHECK(is<decltype(*dv<O&>().begin()), L>); CHECK(is<decltype(*dv<const O&>().begin()), C>); CHECK(is<decltype(dv<O&>().begin()[0]), L>); CHECK(is<decltype(dv<const O&>().begin().operator->()), CP>);
    static void body(O& o, const O& c) { (void)o.has_value_and(SpyB<L>{}); (void)c.has_value_and(SpyB<C>{}); (void)dv<O>().has_value_and(SpyB<R>{}); (void)dv<const O>().has_value_and(SpyB<K>{}); o.inspect(SpyB<L>{}); c.inspect(SpyB<C>{}); dv<O>().inspect(SpyB<R>{}); dv<const O>().inspect(SpyB<K>{}); }
    static constexpr auto use = &body;
    CHECK(use != nullptr);
    CHECK(is<decltype(dv<O&>() = opt::none), O&>);
    CHECK(!std::is_convertible_v<O, bool> && !std::is_convertible_v<O&, bool> && !std::is_convertible_v<const O, bool>); CHECK(std::is_constructible_v<bool, O> && std::is_constructible_v<bool, const O&>); CHECK(!std::is_convertible_v<O, int> && !std::is_constructible_v<opt::none_t, O>);
};
template<class T, class Q> struct values {
    using O = opt::option<T>; using N = std::remove_cv_t<T>;
    CHECK(is<decltype(dv<O&>().value_or(dv<T>())), N>); CHECK(is<decltype(dv<O>().value_or(dv<T>())), N>); CHECK(is<decltype(dv<const O>().value_or(dv<T>())), N>);
    CHECK(is<decltype(dv<O&>().take()), O>); CHECK(is<decltype(dv<O&>().take_if(SpyB<Q>{})), O>); CHECK(is<decltype(dv<O>().take()), O>);
    CHECK(is<decltype(dv<O&>().filter(SpyB<Q>{})), O>); CHECK(is<decltype(dv<O>().filter(SpyB<Q>{})), O>);
    CHECK(is<decltype(dv<O&>().or_else(dv<O(*)()>())), O>); CHECK(is<decltype(dv<O>().or_else(dv<O(*)()>())), O>); CHECK(is<decltype(dv<const O>().or_else(dv<O(*)()>())), O>);
    CHECK(is<decltype(dv<O&>() | dv<T>()), N>); CHECK(is<decltype(dv<O>() | dv<T>()), N>); CHECK(is<decltype(dv<O&>() | dv<O>()), O>); CHECK(is<decltype(dv<O>() | dv<O>()), O>); CHECK(is<decltype(dv<O>() | dv<O&>()), O>); CHECK(is<decltype(dv<O&>() | dv<O&>()), O>);
    CHECK(is<decltype(dv<O&>() |= dv<O>()), O&>); CHECK(is<decltype(dv<opt::option<S>&>() & dv<O>()), O>); CHECK(is<decltype(dv<opt::option<S>&>() & dv<O&>()), O>); CHECK(is<decltype(dv<O>() ^ dv<O>()), O>); CHECK(is<decltype(dv<O&>() ^ dv<O>()), O>); CHECK(is<decltype(dv<O>() ^ dv<O&>()), O>); CHECK(is<decltype(dv<O&>() ^ dv<O&>()), O>);
    CHECK(is<decltype(dv<O&>() = dv<O>()), O&>); CHECK(is<decltype(dv<O&>() = dv<O&>()), O&>);
    static void body(O& o, O&& r) { (void)o.take_if(SpyB<Q>{}); (void)o.filter(SpyB<Q>{}); (void)static_cast<O&&>(r).filter(SpyB<Q>{}); }
    static constexpr auto use = &body; CHECK(use != nullptr);
};
template<class A, class B, class = void> struct cmp_ : std::false_type {}; template<class A, class B> struct cmp_<A, B, std::void_t<decltype(std::declval<A>() == std::declval<B>())>> : std::true_type {};
template<class A, class B, class = void> struct lt_ : std::false_type {}; template<class A, class B> struct lt_<A, B, std::void_t<decltype(std::declval<A>() < std::declval<B>())>> : std::true_type {};
template<class A, class B, class = void> struct ne_ : std::false_type {}; template<class A, class B> struct ne_<A, B, std::void_t<decltype(std::declval<A>() != std::declval<B>())>> : std::true_type {};
template<class A, class B, class = void> struct gt_ : std::false_type {}; template<class A, class B> struct gt_<A, B, std::void_t<decltype(std::declval<A>() > std::declval<B>())>> : std::true_type {};
template<class A, class B, class = void> struct le_ : std::false_type {}; template<class A, class B> struct le_<A, B, std::void_t<decltype(std::declval<A>() <= std::declval<B>())>> : std::true_type {};
template<class A, class B, class = void> struct ge_ : std::false_type {}; template<class A, class B> struct ge_<A, B, std::void_t<decltype(std::declval<A>() >= std::declval<B>())>> : std::true_type {};
template<class A, class B, class = void> struct or_ : std::false_type {}; template<class A, class B> struct or_<A, B, std::void_t<decltype(std::declval<A>() | std::declval<B>())>> : std::true_type {};
template<class A, class B, class = void> struct and_ : std::false_type {}; template<class A, class B> struct and_<A, B, std::void_t<decltype(std::declval<A>() & std::declval<B>())>> : std::true_type {};
template<class A, class B, class = void> struct xor_ : std::false_type {}; template<class A, class B> struct xor_<A, B, std::void_t<decltype(std::declval<A>() ^ std::declval<B>())>> : std::true_type {};
template<class A, class B> struct six { static constexpr bool eq = cmp_<A, B>::value, ne = ne_<A, B>::value, lt = lt_<A, B>::value, gt = gt_<A, B>::value, le = le_<A, B>::value, ge = ge_<A, B>::value; static constexpr int n = eq + 2 * ne + 4 * lt + 8 * gt + 16 * le + 32 * ge; };
template<class A, class B> struct same_six { CHECK((six<opt::option<A>, opt::option<B>>::n == six<const A&, const B&>::n)); CHECK((six<opt::option<A>, B>::n == six<const A&, const B&>::n)); CHECK((six<A, opt::option<B>>::n == six<const A&, const B&>::n)); CHECK((six<opt::option<A>, opt::none_t>::n == 63)); CHECK((six<opt::none_t, const opt::option<B>&>::n == 63)); };
struct OEq { bool operator==(const OEq&) const; }; struct OLt { bool operator<(const OLt&) const; }; struct OLe { bool operator<=(const OLe&) const; }; struct OGt { bool operator>(const OGt&) const; }; struct OGe { bool operator>=(const OGe&) const; }; struct ONe { bool operator!=(const ONe&) const; }; struct OMut { bool operator==(OMut&); }; struct NoC {}; struct OInt { int operator==(const OInt&) const; int operator!=(const OInt&) const; bool operator<(const OInt&) const; };
struct OVoid { void operator==(const OVoid&) const; }; struct OMix { bool operator==(int) const; bool operator<(int) const; };
"""
RESI = r"""
@ res_int | C25 | ok |
I(::acc<int, int&, const int&, int&&, const int&&>); I(::values<int, int&>);
@ res_class | C25 | ok |
I(::acc<S, S&, const S&, S&&, const S&&>); I(::values<S, S&>); I(::acc<std::string, std::string&, const std::string&, std::string&&, const std::string&&>); I(::values<std::string, std::string&>);
@ res_const | C25 | ok |
I(::acc<const S, const S&, const S&, const S&&, const S&&>);
@ res_move_only | C25 | ok |
I(::acc<MvO, MvO&, const MvO&, MvO&&, const MvO&&>); using O = opt::option<MvO>; CHECK(is<decltype(dv<O&>().take()), O>); CHECK(is<decltype(dv<O>().filter(SpyB<MvO&>{})), O>); CHECK(is<decltype(dv<O>() | dv<O>()), O>); CHECK(is<decltype(dv<O>().value_or(dv<MvO>())), MvO>);
@ res_nested | C25 C22 | ok |
using N = opt::option<int>; I(::acc<N, N&, const N&, N&&, const N&&>); using P = opt::option<bool>; I(::acc<P, P&, const P&, P&&, const P&&>); using O = opt::option<N>; CHECK(is<decltype(dv<O&>().value_or(dv<N>())), N>); CHECK(is<decltype(dv<O&>().take()), O>); CHECK(is<decltype(dv<O>().take()), O>); CHECK(is<decltype(dv<O&>().filter(SpyB<N&>{})), O>); CHECK(is<decltype(dv<O&>().or_else(dv<O(*)()>())), O>); CHECK(is<decltype(dv<O&>() | dv<O>()), O>); CHECK(is<decltype(dv<O&>() |= dv<O>()), O&>); CHECK(is<decltype(dv<O>() ^ dv<O>()), O>); CHECK(is<decltype(dv<opt::option<S>&>() & dv<O>()), O>);
@ res_ref | C25 C16 | ok |
I(::acc<S&, S&, S&, S&, S&>); I(::acc<const S&, const S&, const S&, const S&, const S&>); I(::acc<int&, int&, int&, int&, int&>); I(::values<S&, S&>); I(::values<const S&, const S&>);
@ res_rvref | C25 C16 | ok |
using O = opt::option<S&&>; CHECK(is<decltype(dv<O>().get()), S&&>); CHECK(is<decltype(dv<O&>().get()), S&>); CHECK(is<decltype(*dv<O>()), S&&>);
@ res_cmp | C25 C09 | ok |
I(::same_six<int, int>); I(::same_six<int, long>); I(::same_six<std::string, const char*>); I(::same_six<const char*, std::string>); I(::same_six<OEq, OEq>); I(::same_six<OLt, OLt>); I(::same_six<OLe, OLe>); I(::same_six<OGt, OGt>); I(::same_six<OGe, OGe>); I(::same_six<ONe, ONe>); I(::same_six<NoC, NoC>); I(::same_six<OInt, OInt>); I(::same_six<OMix, int>); I(::same_six<S, S>); I(::same_six<int, std::string>); I(::same_six<Base*, void*>); I(::same_six<std::pair<int, int>, std::pair<int, int>>);
CHECK((!cmp_<opt::option<OMut>, opt::option<OMut>>::value)); CHECK((!cmp_<opt::option<OMut>&, OMut&>::value)); CHECK((!cmp_<opt::option<OVoid>, opt::option<OVoid>>::value)); CHECK((!cmp_<opt::option<OVoid>, OVoid>::value));
CHECK(is<decltype(dv<opt::option<OInt>>() == dv<opt::option<OInt>>()), bool>); CHECK(is<decltype(dv<opt::option<OInt>>() == dv<OInt>()), bool>); CHECK(is<decltype(dv<OInt>() == dv<opt::option<OInt>>()), bool>); CHECK(is<decltype(dv<opt::option<int>>() < opt::none), bool>);
@ res_cmp_nested | C25 C09 C22 | ok |
using N = opt::option<opt::option<int>>; using O = opt::option<int>; CHECK((six<N, N>::n == 63)); CHECK((six<N, O>::n == 63)); CHECK((six<O, N>::n == 63)); CHECK((six<N, opt::none_t>::n == 63)); CHECK((six<N, int>::n == 63)); CHECK((six<opt::option<int&>, O>::n == 63)); CHECK((six<opt::option<int&>, int>::n == 63)); CHECK((six<opt::option<NoC>, opt::option<int>>::n == 0));
@ res_logic | C25 C10 | ok |
using A = opt::option<int>; using B = opt::option<long>; using U = opt::option<std::unique_ptr<int>>;
CHECK((!or_<A, B>::value)); CHECK((!xor_<A, B>::value)); CHECK((and_<A, B>::value)); CHECK((!and_<A, int>::value)); CHECK((!xor_<A, int>::value)); CHECK((or_<A, long>::value)); CHECK((!or_<int, A>::value)); CHECK(is<decltype(dv<A>() & dv<B>()), B>); CHECK(is<decltype(dv<B&>() & dv<A&>()), A>); CHECK(is<decltype(dv<A>() | 2.5), int>); CHECK(is<decltype(dv<A&>() |= 3), A&>); CHECK(is<decltype(dv<A&>() |= dv<B>()), A&>); CHECK(is<decltype(dv<opt::option<const std::string>>() | "abc"), std::string>);
CHECK(is<decltype(dv<U>() | dv<U>()), U>); CHECK(is<decltype(dv<U>() ^ dv<U>()), U>); CHECK(is<decltype(dv<U&>() & dv<U>()), U>); CHECK(is<decltype(dv<U>() | nullptr), std::unique_ptr<int>>);
@ res_monadic_types | C25 C07 | ok |
using O = opt::option<int>;
CHECK(is<decltype(dv<O&>().map(dv<long(*)(int)>())), opt::option<long>>); CHECK(is<decltype(dv<O&>().map(dv<S&(*)(int)>())), opt::option<S&>>); CHECK(is<decltype(dv<O&>().map(dv<const S&(*)(int)>())), opt::option<const S&>>); CHECK(is<decltype(dv<O&>().map(dv<S&&(*)(int)>())), opt::option<S&&>>); CHECK(is<decltype(dv<O&>().map(dv<const S(*)(int)>())), opt::option<S>>); CHECK(is<decltype(dv<O&>().map(dv<O(*)(int)>())), opt::option<O>>); CHECK(is<decltype(dv<opt::option<S>&>().map(&S::i)), opt::option<int&>>); CHECK(is<decltype(dv<const opt::option<S>&>().map(&S::i)), opt::option<const int&>>); CHECK(is<decltype(dv<opt::option<S>>().map(&S::i)), opt::option<int&&>>);
CHECK(is<decltype(dv<O&>().and_then(dv<const opt::option<long>&(*)(int)>())), opt::option<long>>); CHECK(is<decltype(dv<O&>().and_then(dv<opt::option<S&>(*)(int)>())), opt::option<S&>>);
CHECK(is<decltype(dv<O&>().map_or(dv<const long&>(), dv<int(*)(int)>())), long>); CHECK(is<decltype(dv<O&>().map_or(dv<std::string&>(), dv<const char*(*)(int)>())), std::string>); CHECK(is<decltype(dv<O&>().map_or_else(dv<long(*)()>(), dv<long(*)(int)>())), long>);
CHECK(is<decltype(dv<opt::option<std::string>&>().value_or("abc")), std::string>); CHECK(is<decltype(dv<opt::option<std::string>&>().value_or_construct(3, 'a')), std::string>); CHECK(is<decltype(dv<opt::option<std::vector<int>>&>().value_or_construct({1, 2})), std::vector<int>>); CHECK(is<decltype(dv<opt::option<const std::vector<int>>>().value_or_construct({1, 2})), std::vector<int>>); CHECK(is<decltype(dv<opt::option<const std::string>&>().value_or("abc")), std::string>);
CHECK(is<decltype(dv<opt::option<std::string>&>().emplace(3, 'a')), std::string&>); CHECK(is<decltype(dv<opt::option<std::string>&>().try_emplace("x")), std::string&>); CHECK(is<decltype(dv<opt::option<const std::string>&>().emplace("x")), const std::string&>); CHECK(is<decltype(dv<opt::option<int&>&>().emplace(dv<int&>())), int&>);
@ res_free | C25 C11 | ok |
using A = opt::option<int>; using B = opt::option<std::string>; using R = opt::option<S&>;
CHECK(is<decltype(opt::zip(dv<A&>(), dv<B>())), opt::option<std::tuple<int, std::string>>>); CHECK(is<decltype(opt::zip(dv<const A&>())), opt::option<std::tuple<int>>>); CHECK(is<decltype(opt::zip(dv<R&>(), dv<A>())), opt::option<std::tuple<S&, int>>>);
CHECK(is<decltype(opt::zip_with(dv<long(*)(int, const std::string&)>(), dv<A&>(), dv<B>())), opt::option<long>>); CHECK(is<decltype(opt::zip_with(dv<S&(*)(int)>(), dv<A&>())), opt::option<S&>>); CHECK(is<decltype(opt::zip_with(dv<void(*)(int)>(), dv<A&>())), void>);
CHECK(is<decltype(opt::option_cast<double>(dv<A&>())), opt::option<double>>); CHECK(is<decltype(opt::option_cast<double>(dv<A>())), opt::option<double>>); CHECK(is<decltype(opt::option_cast<std::string_view>(dv<B&>())), opt::option<std::string_view>>); CHECK(is<decltype(opt::from_nullable(dv<int*>())), opt::option<int&>>); CHECK(is<decltype(opt::from_nullable(dv<const S* const>())), opt::option<const S&>>); CHECK(is<decltype(opt::as_option(dv<bool>())), opt::option<bool>>); CHECK(is<decltype(opt::make_option(dv<const int&>())), A>); CHECK(is<decltype(opt::make_option("abc")), opt::option<const char*>>); CHECK(is<decltype(opt::make_option<std::string>(3, 'a')), B>); CHECK(is<decltype(opt::make_option<std::vector<int>>({1, 2})), opt::option<std::vector<int>>>); CHECK(is<decltype(opt::make_option(dv<A>())), opt::option<A>>);
CHECK(is<decltype(opt::flatten(dv<opt::option<A>>())), A>); CHECK(is<decltype(opt::flatten(dv<opt::option<A>&>())), opt::option<int&>>); CHECK(is<decltype(opt::flatten(dv<const opt::option<A>&>())), opt::option<const int&>>); CHECK(is<decltype(opt::flatten(dv<opt::option<opt::option<A>>>())), A>); CHECK(is<decltype(opt::flatten(dv<A>())), A>); CHECK(is<decltype(opt::flatten(dv<opt::option<R>>())), R>); CHECK(is<decltype(opt::flatten(dv<opt::option<opt::option<B>>&>())), opt::option<std::string&>>);
CHECK(is<decltype(opt::unzip(dv<opt::option<std::pair<int, S>>>())), std::pair<A, opt::option<S>>>); CHECK(is<decltype(opt::unzip(dv<opt::option<std::tuple<int, S, std::string>>&>())), std::tuple<A, opt::option<S>, B>>); CHECK(is<decltype(opt::unzip(dv<const opt::option<std::array<int, 3>>&>())), std::array<A, 3>>); CHECK(is<decltype(opt::unzip(dv<opt::option<const std::pair<int, S>>>())), std::pair<A, opt::option<S>>>);
CHECK(is<decltype(opt::io(dv<A&>()).value), A&>); CHECK(is<decltype(opt::io(dv<const A&>()).value), const A&>); CHECK(is<decltype(opt::io(dv<A&>(), dv<int&>()).none_case), int&>);
@ res_get | C25 C12 | ok |
using P = std::pair<int, S>; using O = opt::option<P>; using V = std::variant<int, S>; using Q = opt::option<std::tuple<int&, const S>>;
CHECK(is<decltype(opt::get<0>(dv<O&>())), opt::option<int&>>); CHECK(is<decltype(opt::get<1>(dv<const O&>())), opt::option<const S&>>); CHECK(is<decltype(opt::get<0>(dv<O>())), opt::option<int&&>>); CHECK(is<decltype(opt::get<1>(dv<const O>())), opt::option<const S&&>>);
CHECK(is<decltype(opt::get<int>(dv<O&>())), opt::option<int&>>); CHECK(is<decltype(opt::get<S>(dv<const O&>())), opt::option<const S&>>); CHECK(is<decltype(opt::get<S>(dv<O>())), opt::option<S&&>>); CHECK(is<decltype(opt::get<int>(dv<const O>())), opt::option<const int&&>>);
CHECK(is<decltype(opt::get<0>(dv<Q&>())), opt::option<int&>>); CHECK(is<decltype(opt::get<1>(dv<Q&>())), opt::option<const S&>>); CHECK(is<decltype(opt::get<0>(dv<const Q&>())), opt::option<int&>>);
CHECK(is<decltype(opt::get<0>(dv<V&>())), opt::option<int&>>); CHECK(is<decltype(opt::get<1>(dv<const V&>())), opt::option<const S&>>); CHECK(is<decltype(opt::get<0>(dv<V>())), opt::option<int&&>>); CHECK(is<decltype(opt::get<1>(dv<const V>())), opt::option<const S&&>>);
CHECK(is<decltype(opt::get<int>(dv<V&>())), opt::option<int&>>); CHECK(is<decltype(opt::get<S>(dv<const V&>())), opt::option<const S&>>); CHECK(is<decltype(opt::get<S>(dv<V>())), opt::option<S&&>>); CHECK(is<decltype(opt::get<int>(dv<const V>())), opt::option<const int&&>>);
@ res_elements | C25 C12 | ok |
using C = std::vector<S>; using M = std::map<int, S>; using Z = std::set<int>; using A = std::array<int, 3>;
CHECK(is<decltype(opt::at(dv<C&>(), 0)), opt::option<S&>>); CHECK(is<decltype(opt::at(dv<const C&>(), 0)), opt::option<const S&>>); CHECK(is<decltype(opt::at(dv<C>(), 0)), opt::option<S&&>>); CHECK(is<decltype(opt::at_front(dv<C&>())), opt::option<S&>>); CHECK(is<decltype(opt::at_front(dv<const C&>())), opt::option<const S&>>); CHECK(is<decltype(opt::at_front(dv<C>())), opt::option<S&&>>); CHECK(is<decltype(opt::at_back(dv<C&>())), opt::option<S&>>); CHECK(is<decltype(opt::at_back(dv<const C&>())), opt::option<const S&>>); CHECK(is<decltype(opt::at_back(dv<C>())), opt::option<S&&>>);
CHECK(is<decltype(opt::at(dv<A&>(), 0)), opt::option<int&>>); CHECK(is<decltype(opt::at(dv<const A&>(), 0)), opt::option<const int&>>); CHECK(is<decltype(opt::at(dv<std::string_view>(), 0)), opt::option<const char&&>>); CHECK(is<decltype(opt::at(dv<std::vector<bool>&>(), 0)), opt::option<std::vector<bool>::reference>>);
CHECK(is<decltype(opt::lookup(dv<M&>(), 1)), opt::option<S&>>); CHECK(is<decltype(opt::lookup(dv<const M&>(), 1)), opt::option<const S&>>); CHECK(is<decltype(opt::lookup(dv<Z&>(), 1)), opt::option<const int&>>); CHECK(is<decltype(opt::lookup(dv<const Z&>(), 1)), opt::option<const int&>>);
@ res_ctad | C25 | ok |
CHECK(is<decltype(opt::option{1}), opt::option<int>>); CHECK(is<decltype(opt::option{2.f}), opt::option<float>>); CHECK(is<decltype(opt::option{opt::option{3.}}), opt::option<double>>); CHECK(is<decltype(opt::option(dv<const S&>())), opt::option<S>>); CHECK(is<decltype(opt::option("abc")), opt::option<const char*>>); CHECK(is<decltype(opt::option(dv<const opt::option<int>&>())), opt::option<int>>);
@ res_traits | C25 | ok |
CHECK(opt::is_option<opt::option<int>>::value); CHECK(opt::is_option_v<opt::option<int&>>); CHECK(!opt::is_option_v<int>); CHECK(!opt::is_option_v<opt::none_t>); CHECK(!opt::is_option_v<std::vector<opt::option<int>>>); CHECK(std::is_base_of_v<std::exception, opt::bad_access>); CHECK(is<decltype(opt::none), const opt::none_t>); CHECK(std::is_empty_v<opt::none_t>); CHECK(!std::is_default_constructible_v<opt::none_t>); CHECK(std::is_nothrow_copy_constructible_v<opt::none_t>); CHECK(is<decltype(dv<std::hash<opt::option<int>>>()(dv<opt::option<int>>())), std::size_t>); CHECK(std::is_nothrow_constructible_v<opt::option<int>, opt::none_t>); CHECK(!std::is_constructible_v<opt::none_t, int>);
@ res_braced_none | C25 | ok | fn
struct L { static void f(const opt::option<int>&); static int f(const std::string&, int) ; }; opt::option<S> a = {}; opt::option<int> b = opt::none; a = {}; b = {}; L::f({}); L::f(opt::none); L::f(3); opt::option<std::string> c = "abc"; c = {}; opt::option<opt::option<int>> d = {}; d = {}; opt::option<int&> e = {}; e = {}; (void)a; (void)b; (void)c; (void)d; (void)e;
@ res_hash_enabled | C25 C14 | ok |
struct NH {}; template<class T> using H = std::hash<opt::option<T>>; CHECK(std::is_default_constructible_v<H<int>>); CHECK(std::is_default_constructible_v<H<const int>>); CHECK(std::is_default_constructible_v<H<std::string>>); CHECK(!std::is_default_constructible_v<H<NH>>); CHECK(!std::is_default_constructible_v<H<std::vector<int>>>); CHECK(std::is_default_constructible_v<H<opt::option<int>>>); CHECK(!std::is_default_constructible_v<H<opt::option<NH>>>); CHECK(std::is_default_constructible_v<H<int*>>); CHECK(std::is_default_constructible_v<H<NH&>>); CHECK(std::is_default_constructible_v<H<const std::string&>>); CHECK((std::is_invocable_r_v<std::size_t, H<int>, const opt::option<int>&>)); CHECK(!std::is_invocable_v<H<int>, int*>);
@ res_swap_enabled | C25 C05 | ok |
struct NM { NM(const NM&) = delete; }; struct NS { NS(NS&&); NS& operator=(NS&&) = delete; }; CHECK(std::is_swappable_v<opt::option<int>>); CHECK(std::is_swappable_v<opt::option<std::unique_ptr<int>>>); CHECK(std::is_swappable_v<opt::option<int&>>); CHECK(std::is_nothrow_swappable_v<opt::option<int>>); CHECK(!std::is_swappable_v<opt::option<NM>>); CHECK(!std::is_swappable_v<opt::option<NS>>); CHECK((std::is_swappable_with_v<opt::option<int>&, opt::option<int>&>)); CHECK((!std::is_swappable_with_v<opt::option<int>&, opt::option<std::string>&>)); CHECK(std::is_nothrow_swappable_v<opt::option<std::string>>);
@ res_multi_ctor | C25 C03 | ok |
using P = opt::option<std::pair<int, long>>; using S3 = opt::option<std::string>; struct AG { int a; double b; int* c; }; using G = opt::option<AG>;
CHECK((std::is_constructible_v<P, int, long>)); CHECK((std::is_constructible_v<P, std::piecewise_construct_t, std::tuple<int>, std::tuple<long>>)); CHECK((!std::is_constructible_v<P, int, S>)); CHECK((!std::is_constructible_v<P, int, long, int>)); CHECK((std::is_constructible_v<S3, std::size_t, char>)); CHECK((std::is_constructible_v<S3, std::in_place_t>)); CHECK((std::is_constructible_v<S3, std::in_place_t, std::size_t, char>)); CHECK((!std::is_constructible_v<S3, std::in_place_t, S>)); CHECK((std::is_constructible_v<S3, std::in_place_t, std::initializer_list<char>>)); CHECK((std::is_constructible_v<opt::option<std::vector<int>>, std::in_place_t, std::initializer_list<int>, std::allocator<int>>)); CHECK((!std::is_convertible_v<std::in_place_t, S3>));
CHECK((std::is_constructible_v<G, int, double>)); CHECK((std::is_constructible_v<G, int, double, int*>)); CHECK((!std::is_constructible_v<G, int, double, int*, int>)); CHECK((!std::is_constructible_v<G, int, S>)); CHECK((std::is_constructible_v<G, std::in_place_t, int, double>)); CHECK((std::is_constructible_v<G, std::in_place_t, int>)); CHECK((!std::is_constructible_v<opt::option<int>, int, int>)); CHECK((!std::is_constructible_v<opt::option<int&>, int&, int&>)); CHECK((!std::is_constructible_v<opt::option<int&>, int, int&>)); CHECK((!std::is_constructible_v<opt::option<MO>, std::in_place_t, const MO&>)); CHECK((std::is_constructible_v<opt::option<MO>, std::in_place_t, MO>)); CHECK((!std::is_constructible_v<opt::option<int>, std::in_place_t, int, int>)); CHECK((!std::is_constructible_v<opt::option<std::unique_ptr<int>>, std::in_place_t, const std::unique_ptr<int>&>));
@ res_brace_elision | C25 | ok |
struct A2 { int a[2]; }; struct A1 { int a; int b; }; struct A3 { A1 x; int y; }; CHECK((std::is_constructible_v<opt::option<A2>, int, int>)); CHECK((std::is_constructible_v<opt::option<A3>, int, int, int>)); CHECK((!std::is_constructible_v<opt::option<A2>, int, int, int>)); CHECK((std::is_constructible_v<opt::option<std::array<int, 2>>, int, int>)); inline void f() { opt::option<A2> a(1, 2); a.emplace(1, 2); opt::option<A3> b(1, 2, 3); b.try_emplace(1, 2, 3); opt::option<A3> c(std::in_place, 1, 2); opt::option<std::array<int, 2>> d{1, 2}; (void)c; (void)d; }
@ res_agg_instances | C25 C29 | ok |
template<class T, class... A> struct inst { template<class... B> static void g(B&&... b) { if constexpr (std::is_constructible_v<opt::option<T>, B...>) { opt::option<T> o(static_cast<B&&>(b)...); (void)o; } if constexpr (std::is_constructible_v<opt::option<T>, std::in_place_t, B...>) { opt::option<T> o(std::in_place, static_cast<B&&>(b)...); (void)o; } } static void f() { g(dv<A>()...); } static constexpr auto use = &f; CHECK(use != nullptr); };
struct A1 { int a; }; struct A3 { A1 x; int y; }; struct C { operator A1(); operator int(); }; struct D : A1 {}; struct E : A1 { int z; }; struct Emp {}; struct W { std::any x; }; struct F { operator A1(); };
I(inst<A1, double>); I(inst<A1, int>); I(inst<A1, C>); I(inst<A1, F>); I(inst<A1, D>); I(inst<A1, A1&>); I(inst<A1, const A1>); I(inst<A3, A1, double>); I(inst<A3, int, int>); I(inst<A3, double, double>); I(inst<A3, C, int>); I(inst<E, A1, int>); I(inst<E, int, int>); I(inst<Emp, Emp>); I(inst<Emp, int>); I(inst<W, W&>); I(inst<W, int>); I(inst<W, const W&>); I(inst<A1, long long>); I(inst<A1, char>); I(inst<A3, F, int>); I(inst<const A1, int>); I(inst<const A1, double>);
"""
UNITS = [TUnit("overloads", PRE, matrix(), chunk=4, defs=("OPTION_USE_PFR=0",)), TUnit("results", PRE + RES, RESI, chunk=6, defs=("OPTION_USE_PFR=0",))]
