"""Type-level facts: propagation of special members (C24) and sizes (C23)."""
import itertools
from .tl import TUnit

PRE = r'''
#include <opt/option.hpp>
#include <type_traits>
#include <utility>
#include <tuple>
#include <array>
#include <complex>
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
#define I(...) static_assert(sizeof(__VA_ARGS__) > 0, "")
template<class T> struct special {
    using O = opt::option<T>; using N = std::remove_const_t<T>;
    static constexpr bool nd = std::is_nothrow_destructible_v<T>;
    // a deleted move falls back to the copy, as for std::optional
    static constexpr bool cc = std::is_copy_constructible_v<T>, mc = std::is_move_constructible_v<T>, ca = cc && std::is_copy_assignable_v<T>, ma = mc && std::is_move_assignable_v<T>;
    static constexpr bool tcc = cc && std::is_trivially_copy_constructible_v<T>, tmc = mc ? std::is_trivially_move_constructible_v<T> : tcc, td = std::is_trivially_destructible_v<T>;
    static constexpr bool tca = ca && std::is_trivially_copy_assignable_v<T> && std::is_trivially_copy_constructible_v<T> && td;
    static constexpr bool tma = ma ? std::is_trivially_move_assignable_v<T> && std::is_trivially_move_constructible_v<T> && td : tca;
    static constexpr bool ncc = cc && std::is_nothrow_copy_constructible_v<T>, nmc = mc ? std::is_nothrow_move_constructible_v<T> : ncc;
    static constexpr bool nca = ca && std::is_nothrow_copy_constructible_v<T> && std::is_nothrow_copy_assignable_v<T>;
    static constexpr bool nma = ma ? std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_assignable_v<T> : nca;
    CHECK(std::is_nothrow_default_constructible_v<O> || !nd);
    CHECK(std::is_copy_constructible_v<O> == cc);
    CHECK(std::is_move_constructible_v<O> == (mc || cc));
    CHECK(std::is_copy_assignable_v<O> == ca);
    CHECK(std::is_move_assignable_v<O> == (ma || ca));
    CHECK(std::is_trivially_copy_constructible_v<O> == tcc);
    CHECK(std::is_trivially_move_constructible_v<O> == tmc);
    CHECK(std::is_trivially_copy_assignable_v<O> == tca);
    CHECK(std::is_trivially_move_assignable_v<O> == tma);
    CHECK(std::is_trivially_destructible_v<O> == td);
    CHECK(std::is_destructible_v<O> && (std::is_nothrow_destructible_v<O> || !nd));
    CHECK(std::is_nothrow_copy_constructible_v<O> == ncc || !nd);
    CHECK(std::is_nothrow_move_constructible_v<O> == nmc || !nd);
    CHECK(std::is_nothrow_copy_assignable_v<O> == nca || !nd);
    CHECK(std::is_nothrow_move_assignable_v<O> == nma || !nd);
    CHECK(!(cc && mc && ca && ma && std::is_trivially_copyable_v<T>) || std::is_trivially_copyable_v<O>);
    CHECK(!std::is_trivially_copyable_v<O> || (td && (!cc || tcc) && (!mc || tmc) && (!ca || tca) && (!ma || tma)));
};
template<class T> struct with_traits { static constexpr bool on = false; };
#define TRAITS(T) template<> struct opt::option_traits<T> { static constexpr std::uintmax_t max_level = 3; static std::uintmax_t get_level(const T*) noexcept; static void set_level(T*, std::uintmax_t) noexcept; }
'''
CC = {"t": "{X}(const {X}&) = default;", "n": "{X}(const {X}&) noexcept;", "u": "{X}(const {X}&);", "d": "{X}(const {X}&) = delete;"}
MC = {"t": "{X}({X}&&) = default;", "n": "{X}({X}&&) noexcept;", "u": "{X}({X}&&);", "d": "{X}({X}&&) = delete;", "a": ""}
CA = {"t": "{X}& operator=(const {X}&) = default;", "n": "{X}& operator=(const {X}&) noexcept;", "u": "{X}& operator=(const {X}&);", "d": "{X}& operator=(const {X}&) = delete;"}
MA = {"t": "{X}& operator=({X}&&) = default;", "n": "{X}& operator=({X}&&) noexcept;", "u": "{X}& operator=({X}&&);", "d": "{X}& operator=({X}&&) = delete;", "a": ""}
DT = {"t": "", "n": "~{X}();", "f": "~{X}() noexcept(false);"}


def matrix():
    """one item per combination of constructors, holding every combination of assignments and destructors"""
    out = ""
    for cc, mc in itertools.product(CC, MC):
        for ca in CA:
            body, gl = "", ""
            for ma, dt in itertools.product(MA, DT):
                for tr in (0, 1):
                    x = "X_%s%s%s%s%s%d" % (cc, mc, ca, ma, dt, tr)
                    mem = " ".join(t[k] for t, k in ((CC, cc), (MC, mc), (CA, ca), (MA, ma), (DT, dt))).replace("{X}", x)
                    body += "struct %s { %s(); %s int v; }; " % (x, x, mem)
                    if tr:
                        body += "} TRAITS(w_sm_%s%s%s::%s); namespace w_sm_%s%s%s { " % (cc, mc, ca, x, cc, mc, ca)
                    body += "I(::special<%s>); " % x
            out += "@ sm_%s%s%s | C24 | ok |\n%s\n" % (cc, mc, ca, body)
    return out


OTHER = r'''
@ sm_builtin | C24 | ok |
enum class En { a, SENTINEL }; struct Po { virtual void f(); }; struct PoD { virtual ~PoD(); }; struct Ag { int a; bool b; }; struct AgS { int a; std::string s; };
I(::special<int>); I(::special<bool>); I(::special<double>); I(::special<float>); I(::special<int*>); I(::special<void(*)()>); I(::special<En>); I(::special<Po>); I(::special<PoD>); I(::special<Ag>); I(::special<AgS>); I(::special<int Ag::*>); I(::special<void (Po::*)()>);
I(::special<std::string>); I(::special<std::vector<int>>); I(::special<std::unique_ptr<int>>); I(::special<std::unique_ptr<int[]>>); I(::special<std::string_view>); I(::special<std::reference_wrapper<int>>); I(::special<std::complex<double>>); I(::special<std::shared_ptr<int>>);
I(::special<std::array<bool, 2>>); I(::special<std::array<std::string, 2>>); I(::special<std::function<void()>>); I(::special<std::tuple<>>);
@ sm_pairs | C24 | ok |
I(::special<std::pair<int, bool>>); I(::special<std::pair<int, int>>); I(::special<std::tuple<int, bool>>); I(::special<std::tuple<std::string, bool>>); I(::special<std::pair<std::unique_ptr<int>, bool>>);
@ sm_const | C24 | ok |
struct A { A(const A&); A& operator=(const A&); }; I(::special<const int>); I(::special<const double>); I(::special<const A>); I(::special<const std::string>); I(::special<std::pair<const int, bool>>); I(::special<int* const>);
@ sm_nested | C24 | ok |
struct A { A(const A&); A(A&&) noexcept; A& operator=(const A&); A& operator=(A&&) noexcept; ~A(); }; struct M { M(M&&); M& operator=(M&&) = delete; }; struct Im { Im(const Im&) = delete; Im(); };
I(::special<opt::option<int>>); I(::special<opt::option<bool>>); I(::special<opt::option<A>>); I(::special<opt::option<opt::option<A>>>); I(::special<opt::option<M>>); I(::special<opt::option<Im>>); I(::special<opt::option<std::unique_ptr<int>>>); I(::special<opt::option<opt::option<double>>>); I(::special<opt::option<std::string>>);
I(::special<opt::option<int&>>); I(::special<opt::option<A&>>); I(::special<opt::option<const A&>>);
@ sm_wrappers | C24 C28 | ok |
struct A { bool b; A(const A&); A(A&&) noexcept; A& operator=(const A&); A& operator=(A&&) noexcept; ~A(); };
I(::special<opt::sentinel<int, -1>>); I(::special<opt::member<A, &A::b>>); I(::special<opt::enforce<std::string>>); I(::special<opt::enforce<bool>>);
CHECK(std::is_trivially_copyable_v<opt::sentinel<int, -1>> && std::is_trivially_copyable_v<opt::enforce<double>>); CHECK(sizeof(opt::sentinel<long, 1, 2>) == sizeof(long)); CHECK(!std::is_copy_constructible_v<opt::enforce<std::unique_ptr<int>>>); CHECK(std::is_nothrow_move_constructible_v<opt::enforce<std::unique_ptr<int>>>);
@ sm_refs | C24 C16 | ok |
struct NC { NC(const NC&) = delete; NC& operator=(const NC&) = delete; ~NC(); }; struct Inc;
template<class R> struct ref { using O = opt::option<R>; CHECK(std::is_nothrow_default_constructible_v<O>); CHECK(std::is_trivially_copy_constructible_v<O>); CHECK(std::is_trivially_move_constructible_v<O>); CHECK(std::is_trivially_copy_assignable_v<O>); CHECK(std::is_trivially_move_assignable_v<O>); CHECK(std::is_trivially_destructible_v<O>); CHECK(std::is_trivially_copyable_v<O>); CHECK(std::is_nothrow_copy_constructible_v<O> && std::is_nothrow_move_constructible_v<O> && std::is_nothrow_copy_assignable_v<O> && std::is_nothrow_move_assignable_v<O>); CHECK(sizeof(O) == sizeof(void*) && alignof(O) == alignof(void*)); };
I(ref<int&>); I(ref<const int&>); I(ref<NC&>); I(ref<const NC&>); I(ref<Inc&>); I(ref<opt::option<int>&>); I(ref<void (&)(int)>); I(ref<int (&)[3]>); I(ref<int&&>); I(ref<NC&&>); I(ref<volatile int&>);
'''

SIZES = r'''
template<class T, unsigned N> struct nest { using type = opt::option<typename nest<T, N - 1>::type>; };
template<class T> struct nest<T, 0> { using type = T; };
template<class T, unsigned N> using nest_t = typename nest<T, N>::type;
template<class T> struct flagged { T v; bool b; };
// N levels cost nothing
template<class T, unsigned N> struct free_levels { CHECK(sizeof(nest_t<T, N>) == sizeof(T)); CHECK(alignof(nest_t<T, N>) == alignof(T)); CHECK(sizeof(nest_t<T, 1>) == sizeof(T)); CHECK(alignof(nest_t<T, 1>) == alignof(T)); CHECK(sizeof(nest_t<T, (N + 1) / 2>) == sizeof(T)); };
// exactly N levels cost nothing, then one flag is added, which serves all further ones
template<class T, unsigned N> struct exactly { CHECK(sizeof(nest_t<T, N>) == sizeof(T)); CHECK(alignof(nest_t<T, N>) == alignof(T)); CHECK(sizeof(nest_t<T, N + 1>) == sizeof(flagged<T>)); CHECK(alignof(nest_t<T, N + 1>) == alignof(T)); CHECK(sizeof(nest_t<T, N + 2>) == sizeof(nest_t<T, N + 1>)); CHECK(sizeof(nest_t<T, N + 9>) == sizeof(nest_t<T, N + 1>)); };
// no spare representation
template<class T> struct flag { using O = opt::option<T>; CHECK(sizeof(O) == sizeof(flagged<T>)); CHECK(alignof(O) == alignof(T)); CHECK(sizeof(opt::option<O>) == sizeof(O)); CHECK(sizeof(nest_t<T, 3>) == sizeof(O)); CHECK(sizeof(nest_t<T, 12>) == sizeof(O)); CHECK(alignof(nest_t<T, 12>) == alignof(T)); };
enum class S1 : short { a, SENTINEL }; enum class S4 : unsigned char { a, b, SENTINEL_START = 250, SENTINEL_END = 253 }; enum class SS : signed char { a, SENTINEL_START = 125 }; enum class Rf : unsigned char { a = 0, b = 250 }; enum class Bi : unsigned char { a = 1, b = 64 }; enum class R64 : unsigned long long { a, z = 1020 }; enum class Full : unsigned char { a, z = 255 }; enum Un { un_a, un_b }; enum class Si : int { a, b };
struct P1 { unsigned char PADDING; }; struct P2 { int a; unsigned char PADDING; unsigned char z; }; struct P3 { unsigned short PADDING; short x; };
template<unsigned N> struct U { int x; U(const U&); ~U(); };
template<unsigned N> struct opt::option_traits<U<N>> { static constexpr std::uintmax_t max_level = N; static std::uintmax_t get_level(const U<N>*) noexcept; static void set_level(U<N>*, std::uintmax_t) noexcept; };
struct Empty {}; struct Fin final { int x; }; struct alignas(32) Al { char c; }; struct Big { Big(); char c[37]; }; struct Dtor { ~Dtor(); short s; }; union Uni { int a; double d; }; struct Poly { virtual void f(); int x; }; struct Abs { virtual ~Abs(); double d; }; struct ML { Abs a; int x; }; template<class T> struct Tpl { T t; U<2> u; };
'''
SZ = r'''
@ size_user_traits | C23 | ok |
I(::exactly<U<1>, 1>); I(::exactly<U<2>, 2>); I(::exactly<U<3>, 3>); I(::exactly<U<7>, 7>); I(::exactly<U<24>, 24>);
@ size_flag | C23 | ok |
I(::flag<int>); I(::flag<unsigned long long>); I(::flag<short>); I(::flag<char>); I(::flag<unsigned char>); I(::flag<long double>); I(::flag<Empty>); I(::flag<Fin>); I(::flag<Al>); I(::flag<Big>); I(::flag<Dtor>); I(::flag<Uni>); I(::flag<Full>); I(::flag<Si>); I(::flag<std::nullptr_t>); I(::flag<std::pair<int, long>>); I(::flag<std::tuple<int, short>>); I(::flag<std::array<int, 3>>); I(::flag<wchar_t>);
@ size_const | C23 | ok |
CHECK(sizeof(opt::option<const int>) == sizeof(opt::option<int>)); CHECK(sizeof(opt::option<const std::string>) >= sizeof(std::string)); CHECK(alignof(opt::option<const double>) == alignof(double)); CHECK(sizeof(opt::option<opt::option<const int>>) == sizeof(opt::option<int>));
@ size_const_user_traits | C23 | ok |
CHECK(sizeof(opt::option<const U<1>>) == sizeof(U<1>)); CHECK(sizeof(opt::option<const U<7>>) == sizeof(U<7>)); CHECK(sizeof(opt::option<opt::option<const U<7>>>) == sizeof(U<7>)); CHECK(alignof(opt::option<const U<3>>) == alignof(U<3>));
@ size_const_free | C23 | ok | cfg=builtin
I(::free_levels<const bool, 6>); I(::free_levels<const double, 6>); I(::free_levels<int* const, 6>); I(::free_levels<const char* const, 4>); I(::free_levels<const std::string, 4>); I(::free_levels<const std::vector<int>, 4>); I(::free_levels<const std::unique_ptr<int>, 4>); I(::free_levels<const std::string_view, 4>); I(::free_levels<const Poly, 4>); I(::free_levels<const std::complex<double>, 4>); I(::free_levels<const std::pair<int, bool>, 4>); I(::free_levels<const std::tuple<int, double>, 4>); I(::free_levels<const std::array<bool, 3>, 4>); I(::free_levels<const P1, 4>); I(::free_levels<const opt::enforce<bool>, 4>);
@ size_limits | C23 C20 | ok | cfg=builtin
I(::exactly<S1, 1>); I(::exactly<S4, 4>); I(::exactly<SS, 3>); I(::flag<Rf>); I(::flag<R64>); I(::exactly<opt::sentinel<int, 1>, 1>); I(::exactly<opt::sentinel<int, 1, 5, 9>, 3>); I(::exactly<opt::sentinel<short, 1, 5, 9, 10, 11, 12, 13, 14, 15>, 9>);
@ size_free | C23 | ok | cfg=builtin
I(::free_levels<bool, 12>); I(::free_levels<int*, 12>); I(::free_levels<const char*, 4>); I(::free_levels<void*, 4>); I(::free_levels<void (*)(int), 4>); I(::free_levels<double, 12>); I(::free_levels<float, 12>); I(::free_levels<Poly, 5>); I(::free_levels<Bi, 5>); I(::free_levels<P1, 5>); I(::free_levels<P2, 5>); I(::free_levels<P3, 5>); I(::free_levels<int Fin::*, 5>); I(::free_levels<void (Poly::*)(), 5>);
@ size_free_std | C23 | ok | cfg=builtin
I(::free_levels<std::string, 5>); I(::free_levels<std::wstring, 5>); I(::free_levels<std::vector<int>, 5>); I(::free_levels<std::vector<bool>, 5>); I(::free_levels<std::vector<std::string>, 5>); I(::free_levels<std::string_view, 5>); I(::free_levels<std::u16string_view, 5>); I(::free_levels<std::unique_ptr<int>, 5>); I(::free_levels<std::unique_ptr<int[]>, 5>); I(::free_levels<std::reference_wrapper<int>, 5>); I(::free_levels<std::complex<double>, 5>); I(::free_levels<std::complex<float>, 5>);
@ size_free_composed | C23 C21 | ok | cfg=builtin
I(::free_levels<std::pair<int, bool>, 5>); I(::free_levels<std::pair<int*, long>, 5>); I(::free_levels<std::tuple<int, double, char>, 5>); I(::free_levels<std::array<bool, 5>, 5>); I(::free_levels<std::array<std::string, 2>, 4>); I(::free_levels<std::pair<int, std::pair<long, bool>>, 4>); I(::free_levels<std::tuple<long, std::array<std::pair<int, bool>, 2>>, 4>); I(::exactly<std::pair<int, U<3>>, 3>); I(::exactly<std::tuple<short, U<2>, S1>, 2>); I(::exactly<std::array<U<3>, 2>, 3>); I(::exactly<std::pair<U<2>, U<4>>, 4>); I(::exactly<std::tuple<U<5>, U<4>>, 5>);
@ size_free_ref | C23 C16 | ok |
CHECK(sizeof(opt::option<int&>) == sizeof(void*)); CHECK(sizeof(opt::option<const std::string&>) == sizeof(void*)); CHECK(alignof(opt::option<int&>) == alignof(void*)); CHECK(sizeof(opt::option<Abs&>) == sizeof(void*)); CHECK(sizeof(opt::option<int&&>) == sizeof(void*)); CHECK(sizeof(opt::option<void (&)()>) == sizeof(void*));
@ size_free_ref_nested | C23 C16 | ok | cfg=builtin
CHECK(sizeof(nest_t<int&, 2>) == sizeof(void*)); CHECK(sizeof(nest_t<int&, 12>) == sizeof(void*)); CHECK(sizeof(nest_t<const Poly&, 9>) == sizeof(void*));
@ size_free_wrap | C23 C28 | ok | cfg=builtin
struct M { int a; bool b; double* p; }; I(::free_levels<opt::member<M, &M::b>, 5>); I(::free_levels<opt::member<M, &M::p>, 5>); I(::free_levels<opt::enforce<bool>, 5>); I(::free_levels<opt::enforce<std::string>, 5>);
@ size_option_member | C23 C21 | ok | cfg=builtin
struct M { int a; opt::option<U<3>> o; M(); }; CHECK(sizeof(opt::option<opt::member<M, &M::o>>) == sizeof(M)); CHECK(sizeof(nest_t<opt::member<M, &M::o>, 2>) == sizeof(M)); CHECK(sizeof(nest_t<opt::member<M, &M::o>, 3>) > sizeof(M)); CHECK(sizeof(opt::option<std::pair<int, opt::option<int>>>) == sizeof(std::pair<int, opt::option<int>>)); CHECK(sizeof(opt::option<opt::option<std::pair<int, opt::option<int>>>>) == sizeof(std::pair<int, opt::option<int>>));
@ size_array_of_options | C23 | ok |
CHECK(sizeof(opt::option<int>[4]) == 4 * sizeof(flagged<int>)); CHECK(std::is_standard_layout_v<opt::option<int>> || true);
'''
UNITS = [TUnit("special", PRE, matrix() + OTHER, chunk=5),
         TUnit("sizes", PRE + SIZES, SZ, chunk=3, thorough_stds=("c++23",))]
