"""C27: misuse of the customization contract and of the interface is rejected, correct use is accepted.
Every rejection has a twin that differs only in the misuse and has to compile."""
from .tl import TUnit

HDR = r'''
#include <opt/option.hpp>
#include <array>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <variant>
#include <vector>
#include <functional>
#include <any>
using U = std::uintmax_t;
template<class T> T dv() noexcept;
'''
# name -> body of the traits ({T} the type); the first list is correct, the second is not
GOODS = {
    "plain": "static constexpr U max_level = 4; static U get_level(const T* p) noexcept { return U(p->x) - 100; } static void set_level(T* p, U l) noexcept { p->x = int(l) + 100; }",
    "constexpr": "static constexpr U max_level = 4; static constexpr U get_level(const T* p) noexcept { return U(p->x) - 100; } static constexpr void set_level(T* p, U l) noexcept { p->x = int(l) + 100; }",
    "narrow": "static constexpr unsigned char max_level = 4; static unsigned char get_level(const T* p) noexcept { return (unsigned char)(p->x - 100); } static void set_level(T* p, unsigned l) noexcept { p->x = int(l) + 100; }",
    "templ": "static constexpr U max_level = 4; template<class X> static U get_level(const X* p) noexcept { return U(p->x) - 100; } template<class X> static void set_level(X* p, U l) noexcept { p->x = int(l) + 100; }",
    "overl": "static constexpr U max_level = 4; static U get_level(const T* p) noexcept { return U(p->x) - 100; } static U get_level(T*) = delete; static U get_level(const T&); static void set_level(T* p, U l) noexcept { p->x = int(l) + 100; } static void set_level(T& p, U l);",
    "maxint": "static const int max_level = 4; static U get_level(const T* const p) noexcept { return U(p->x) - 100; } static void set_level(T* const p, const U l) noexcept { p->x = int(l) + 100; }",
    "maxenum": "enum : U { max_level = 4 }; static U get_level(const T* p) noexcept { return U(p->x) - 100; } static void set_level(T* p, U l) noexcept { p->x = int(l) + 100; }",
    "big": "static constexpr U max_level = U(-1); static U get_level(const T* p) noexcept { return U(p->x); } static void set_level(T* p, U l) noexcept { p->x = int(l); }",
    "object": "static constexpr U max_level = 4; struct G { U operator()(const T* p) const noexcept { return U(p->x) - 100; } }; struct S { void operator()(T* p, U l) const noexcept { p->x = int(l) + 100; } }; static constexpr G get_level{}; static constexpr S set_level{};",
    "base": "",
    "extra": "static constexpr U max_level = 4; static U get_level(const T* p, int = 0) noexcept { return U(p->x) - 100; } static void set_level(T* p, U l, int = 1) noexcept { p->x = int(l) + 100; }",
    "condnx": "static constexpr U max_level = 4; static U get_level(const T* p) noexcept(sizeof(T) > 0) { return U(p->x) - 100; } static void set_level(T* p, U l) noexcept(sizeof(T) > 0) { p->x = int(l) + 100; }",
}
BADS = {
    "noget": "static constexpr U max_level = 4; static void set_level(T* p, U l) noexcept;",
    "noset": "static constexpr U max_level = 4; static U get_level(const T* p) noexcept;",
    "neither": "static constexpr U max_level = 4;",
    "getthrows": "static constexpr U max_level = 4; static U get_level(const T* p); static void set_level(T* p, U l) noexcept;",
    "setthrows": "static constexpr U max_level = 4; static U get_level(const T* p) noexcept; static void set_level(T* p, U l);",
    "getcondthrows": "static constexpr U max_level = 4; static U get_level(const T* p) noexcept(sizeof(T) == 0); static void set_level(T* p, U l) noexcept;",
    "setcondthrows": "static constexpr U max_level = 4; static U get_level(const T* p) noexcept; static void set_level(T* p, U l) noexcept(sizeof(T) == 0);",
    "getmutable": "static constexpr U max_level = 4; static U get_level(T* p) noexcept; static void set_level(T* p, U l) noexcept;",
    "getref": "static constexpr U max_level = 4; static U get_level(const T& p) noexcept; static void set_level(T* p, U l) noexcept;",
    "getvoid": "static constexpr U max_level = 4; static void get_level(const T* p) noexcept; static void set_level(T* p, U l) noexcept;",
    "getnostatic": "static constexpr U max_level = 4; U get_level(const T* p) const noexcept; static void set_level(T* p, U l) noexcept;",
    "getargs": "static constexpr U max_level = 4; static U get_level(const T* p, U l) noexcept; static void set_level(T* p, U l) noexcept;",
    "getother": "static constexpr U max_level = 4; struct Q {}; static U get_level(const Q* p) noexcept; static void set_level(T* p, U l) noexcept;",
    "getclass": "static constexpr U max_level = 4; struct Q {}; static Q get_level(const T* p) noexcept; static void set_level(T* p, U l) noexcept;",
    "getconvthrows": "static constexpr U max_level = 4; struct Q { operator U() const; }; static Q get_level(const T* p) noexcept; static void set_level(T* p, U l) noexcept;",
    "setnolevel": "static constexpr U max_level = 4; static U get_level(const T* p) noexcept; static void set_level(T* p) noexcept;",
    "setref": "static constexpr U max_level = 4; static U get_level(const T* p) noexcept; static void set_level(T& p, U l) noexcept;",
    "setnostatic": "static constexpr U max_level = 4; static U get_level(const T* p) noexcept; void set_level(T* p, U l) noexcept;",
    "setother": "static constexpr U max_level = 4; struct Q {}; static U get_level(const T* p) noexcept; static void set_level(Q* p, U l) noexcept;",
    "setlevelclass": "static constexpr U max_level = 4; struct Q {}; static U get_level(const T* p) noexcept; static void set_level(T* p, Q l) noexcept;",
    "getdeleted": "static constexpr U max_level = 4; static U get_level(const T* p) noexcept = delete; static void set_level(T* p, U l) noexcept;",
    "setdeleted": "static constexpr U max_level = 4; static U get_level(const T* p) noexcept; static void set_level(T* p, U l) noexcept = delete;",
    "getprivate": "static constexpr U max_level = 4; static void set_level(T* p, U l) noexcept; private: static U get_level(const T* p) noexcept;",
    "setprivate": "static constexpr U max_level = 4; static U get_level(const T* p) noexcept; private: static void set_level(T* p, U l) noexcept;",
    "nomax": "static U get_level(const T* p) noexcept; static void set_level(T* p, U l) noexcept;",
}
KINDS = {  # contained types: trivial, destructor, copy/move user provided, not trivially constructible aggregate, immovable
    "t": "int x;",
    "d": "int x; {N}(int); ~{N}();",
    "c": "int x; {N}(int); {N}(const {N}&); {N}& operator=(const {N}&);",
    "m": "int x; {N}(int); {N}({N}&&); {N}& operator=({N}&&); ~{N}();",
    "i": "int x; {N}(int); {N}(const {N}&) = delete; {N}& operator=(const {N}&) = delete;",
}
BASE = "struct base_traits_%(n)s { using T = %(n)s; " + GOODS["plain"] + " };"
decl, items = "", ""
for k, kb in KINDS.items():
    for n, b in list(GOODS.items()) + list(BADS.items()):
        N = "%s_%s" % (n, k)
        if n in BADS and k not in ("t", "d", "c"):
            continue
        decl += "struct %s { %s };\n" % (N, kb.replace("{N}", N))
        if n == "base":
            decl += BASE % {"n": N} + "\ntemplate<> struct opt::option_traits<%s> : base_traits_%s {};\n" % (N, N)
        else:
            decl += "template<> struct opt::option_traits<%s> { %s using T = %s; %s };\n" % (N, "public:", N, b)
        if n in BADS:
            items += "@ traits_%s | C27 | bad |\nusing T = BAD(plain_%s, %s); constexpr auto n = sizeof(opt::option<T>);\n" % (N, k, N)
for n in GOODS:
    items += "@ traits_ok_%s | C27 C29 | ok |\n" % n
    for k in KINDS:
        lv = 4 if n != "big" else 6
        items += "I(::use<%s_%s>); I(::use<const %s_%s>); CHECK(sizeof(opt::option<%s_%s>) == sizeof(int)); CHECK(sizeof(opt::option<opt::option<const %s_%s>>) == sizeof(int));\n" % ((n, k) * 4)
USE = r'''
#define I(...) static_assert(sizeof(__VA_ARGS__) > 0)
template<class T> struct use {
    using O = opt::option<T>; using N = std::remove_const_t<T>;
    static void f(O& o, const O& c) {
        O e; O n = opt::none; (void)e.has_value(); (void)bool(c); o.reset(); o = opt::none; (void)o.get(); (void)c.get(); (void)*o; (void)c->x; (void)o.get_unchecked(); (void)o.value(); (void)o.ptr_or_null();
        for (auto& q : o) (void)q;
        if constexpr (std::is_constructible_v<N, int> || std::is_aggregate_v<N>) { O a(3); O b(std::in_place, 3); o.emplace(4); o.try_emplace(5); }
        if constexpr (std::is_copy_constructible_v<N>) { O a(c); O b(*c); (void)c.value_or(*c); (void)(c | *c); opt::option<O> w(c); opt::option<opt::option<O>> v(w); w = opt::none; v.reset(); (void)w.has_value(); (void)v.has_value(); (void)c.filter([](const T&) { return true; }); }
        if constexpr (std::is_move_constructible_v<N> && !std::is_const_v<T>) { O a(static_cast<O&&>(o)); O b(static_cast<N&&>(*o)); (void)o.take(); (void)o.take_if([](T&) { return true; }); opt::option<O> w(static_cast<O&&>(a)); w.reset(); (void)opt::flatten(static_cast<opt::option<O>&&>(w)); }
        if constexpr (std::is_copy_assignable_v<N> && !std::is_const_v<T>) { o = c; o = *c; }
        if constexpr (std::is_move_assignable_v<N> && !std::is_const_v<T>) { O z; o = static_cast<O&&>(z); o.swap(z); o.replace_fake_ = 0; }
        (void)c.map([](const T&) { return 1; }); (void)o.map_or(1, [](T&) { return 2; });
    }
    static constexpr auto p = &f;
    CHECK(p != nullptr);
};
'''.replace(" o.replace_fake_ = 0;", "")

MISC_DECL = r'''
enum class CastE { a, b }; struct CastB { int x; }; struct CastD : CastB {};
struct NoSpare { int a; long b; }; struct Spare { bool b; int i; }; struct Q { int a; float f; Q(int, float); int fn() const; };
template<class T> inline const T& cref(const T& x) { return x; }
struct Nc { Nc(Nc&&); Nc& operator=(Nc&&); }; struct Big { int a[3]; Big(const Big&); };
struct SenOk { int x; bool operator==(const SenOk& o) const { return x == o.x; } }; struct SenNoEq { int x; };
template<> struct opt::sentinel_option_traits<SenOk> { static constexpr SenOk sentinel_value{7}; };
template<> struct opt::sentinel_option_traits<SenNoEq> { static constexpr SenNoEq sentinel_value{7}; };
struct AsOpt { int x; }; template<> struct opt::option_traits<AsOpt> { static constexpr U max_level = 1; static U get_level(const AsOpt* p) noexcept { return U(p->x); } static void set_level(AsOpt* p, U) noexcept { p->x = 0; } };
struct AsOptC { int x; AsOptC(); AsOptC(const AsOptC&); }; template<> struct opt::option_traits<AsOptC> { static constexpr U max_level = 1; static U get_level(const AsOptC* p) noexcept { return U(p->x); } static void set_level(AsOptC* p, U) noexcept { p->x = 0; } };
struct Less { bool operator()(int a, int b) const { return a == b; } }; struct Set { void operator()(int& a, int b) const { a = b; } };
struct PadOk { char c; unsigned char PADDING; int i; }; struct PadInt { char c; int PADDING; };
'''
misc = r'''
@ none_type | C27 | bad |
constexpr auto n = sizeof(opt::option<BAD(int, opt::none_t)>);
@ none_const_type | C27 | bad |
constexpr auto n = sizeof(opt::option<BAD(const int, const opt::none_t)>);
@ none_ref_type | C27 | bad |
constexpr auto n = sizeof(opt::option<BAD(int&, opt::none_t&)>);
@ in_place_type | C27 | bad |
constexpr auto n = sizeof(opt::option<BAD(int, std::in_place_t)>);
@ in_place_const_type | C27 | bad |
constexpr auto n = sizeof(opt::option<BAD(const int, const std::in_place_t)>);
@ in_place_ref_type | C27 | bad |
constexpr auto n = sizeof(opt::option<BAD(int&, const std::in_place_t&)>);
@ void_type | C27 | bad |
constexpr auto n = sizeof(opt::option<BAD(void*, void)>);
@ const_void_type | C27 | bad |
constexpr auto n = sizeof(opt::option<BAD(const void*, const void)>);
@ ctad_none | C27 | bad | fn
auto o = opt::option BAD({1}, {opt::none}); (void)o;
@ ctad_in_place | C27 | bad | fn
auto o = opt::option(BAD(5, std::in_place)); (void)o;
@ enforce_int | C27 | bad |
constexpr auto n = sizeof(opt::option<opt::enforce<BAD(float, int)>>);
@ enforce_pair | C27 | bad |
constexpr auto n = sizeof(opt::option<opt::enforce<std::pair<int, BAD(float, long)>>>);
@ enforce_agg | C27 | bad |
constexpr auto n = sizeof(opt::option<opt::enforce<BAD(bool, NoSpare)>>);
@ enforce_unsigned | C27 | bad |
constexpr auto n = sizeof(opt::option<opt::enforce<BAD(void*, unsigned char)>>);
@ enforce_tuple | C27 | bad |
constexpr auto n = sizeof(opt::option<opt::enforce<std::tuple<int, BAD(bool, char), long>>>);
@ enforce_array | C27 | bad |
constexpr auto n = sizeof(opt::option<opt::enforce<std::array<BAD(bool, int), 2>>>);
@ enforce_empty_array | C27 | bad |
constexpr auto n = sizeof(opt::option<opt::enforce<std::array<bool, BAD(1, 0)>>>);
@ enforce_std_optional | C27 | bad |
constexpr auto n = sizeof(opt::option<opt::enforce<BAD(opt::option<int>, long long)>>);
@ enforce_member_none | C27 | bad |
constexpr auto n = sizeof(opt::option<opt::enforce<opt::member<Q, BAD(&Q::f, &Q::a)>>>);
@ member_value | C27 | bad |
constexpr auto n = sizeof(opt::option<opt::member<Q, BAD(&Q::f, 5)>>);
@ sentinel_wrong_type | C27 | bad | fn
opt::option<opt::sentinel<BAD(int, std::string), 5>> o; o.reset();
@ and_then_value | C27 | bad | fn
opt::option<int> o; (void)o.and_then([](int) { return BAD(opt::option<int>(1), 1); });
@ and_then_std | C27 | bad | fn
opt::option<int> o; (void)o.and_then([](int) { return BAD(opt::option<int>(1), std::optional<int>(1)); });
@ and_then_void | C27 | bad | fn
opt::option<int> o; (void)o.and_then([](int) { return BAD(opt::option<int>(1), void()); });
@ and_then_const | C27 | bad | fn
const opt::option<int> o; (void)o.and_then([](const int&) { return BAD(opt::option<int>(1), 1); });
@ and_then_rvalue | C27 | bad | fn
(void)opt::option<int>().and_then([](int&&) { return BAD(opt::option<int>(1), true); });
@ and_then_const_rvalue | C27 | bad | fn
(void)dv<const opt::option<int>>().and_then([](const int&&) { return BAD(opt::option<int>(1), opt::none); });
@ map_or_else_types | C27 | bad | fn
opt::option<int> o; (void)o.map_or_else([] { return BAD(1, 1L); }, [](int) { return 2; });
@ map_or_else_const | C27 | bad | fn
const opt::option<int> o; (void)o.map_or_else([] { return BAD(1, true); }, [](int) { return 2; });
@ map_or_else_rvalue | C27 | bad | fn
(void)opt::option<int>().map_or_else([] { return BAD(1.0, 1.0f); }, [](int) { return 2.0; });
@ map_or_else_cref | C27 | bad | fn
static const int k = 1; opt::option<int> o; (void)o.map_or_else([]() -> BAD(const int&, int) { return k; }, [](int&) -> const int& { return k; });
@ map_or_types | C27 | bad | fn
opt::option<int> o; (void)o.map_or(BAD(1, std::string()), [](int) { return 2; });
@ or_else_value | C27 | bad | fn
opt::option<int> o; (void)o.or_else([] { return BAD(opt::option<int>(), 1); });
@ or_else_other | C27 | bad | fn
opt::option<int> o; (void)o.or_else([] { return BAD(opt::option<int>(), opt::option<long>()); });
@ or_else_none | C27 | bad | fn
opt::option<int> o; (void)o.or_else([] { return BAD(opt::option<int>(), opt::none); });
@ or_else_void | C27 | bad | fn
opt::option<int> o; (void)o.or_else([] { return BAD(opt::option<int>(), void()); });
@ or_else_rvalue | C27 | bad | fn
(void)opt::option<int>().or_else([] { return BAD(opt::option<int>(), opt::option<const int>()); });
@ or_else_const | C27 | bad | fn
(void)dv<const opt::option<int>&>().or_else([] { return BAD(opt::option<int>(), 1); });
@ value_or_move_only | C27 | bad | fn
opt::option<Nc> o; (void)BAD(static_cast<opt::option<Nc>&&>(o), o).value_or(dv<Nc>());
@ value_or_type | C27 | bad | fn
opt::option<int> o; (void)o.value_or(BAD(1, std::string()));
@ predicate_type | C27 | bad | fn
opt::option<int> o; (void)o.filter([](BAD(int, std::string)) { return true; });
@ take_if_type | C27 | bad | fn
opt::option<int> o; (void)o.take_if([](BAD(int&, char*)) { return true; });
@ has_value_and_type | C27 | bad | fn
opt::option<int> o; (void)o.has_value_and([](int) { return BAD(true, std::string()); });
@ inspect_type | C27 | bad | fn
opt::option<int> o; o.inspect([](BAD(int&, char*)) {});
@ map_arg | C27 | bad | fn
opt::option<int> o; (void)o.map([](BAD(int&, char*)) { return 1; });
@ map_const | C27 | bad | fn
const opt::option<int> o; (void)o.map([](BAD(const int&, int&)) { return 1; });
@ unzip_scalar | C27 | bad | fn
opt::option<BAD(std::pair<int BAD(_UNUSED,),long>, int)> o; (void)opt::unzip(o);
@ zip_non_option | C27 | bad | fn
opt::option<int> o; (void)opt::zip(o, BAD(o, 5));
@ zip_with_args | C27 | bad | fn
opt::option<int> o; (void)opt::zip_with([](int, BAD(int, char*)) { return 1; }, o, o);
@ option_cast_type | C27 | bad | fn
opt::option<int> o; (void)opt::option_cast<BAD(long, std::string)>(o);
@ as_option_no_traits | C27 | bad | fn
(void)opt::as_option(BAD(1.0, 1));
@ as_option_not_trivial | C27 | bad | fn
(void)opt::as_option(BAD(AsOpt{1}, AsOptC()));
@ as_option_string | C27 | bad | fn
(void)opt::as_option(BAD(true, std::string()));
@ from_nullable_object | C27 | bad | fn
int x = 1; (void)opt::from_nullable(BAD(&x, x));
@ flatten_scalar | C27 | bad | fn
opt::option<int> o; (void)opt::flatten(BAD(o, 5));
@ get_index | C27 | bad | fn
opt::option<std::pair<int, long>> o; (void)opt::get<BAD(1, 2)>(o);
@ get_type | C27 | bad | fn
opt::option<std::pair<int, long>> o; (void)opt::get<BAD(long, char)>(o);
@ variant_index | C27 | bad | fn
std::variant<int, long> v; (void)opt::get<BAD(1, 2)>(v);
@ variant_type | C27 | bad | fn
std::variant<int, long> v; (void)opt::get<BAD(long, char)>(v);
@ sentinel_traits_no_eq | C27 | bad | fn
opt::option<BAD(SenOk, SenNoEq)> o; (void)o.has_value();
@ padding_type | C27 | bad | fn
opt::option<BAD(PadOk, PadInt)> o; (void)o.has_value();
@ copy_move_only | C27 | bad | fn
opt::option<Nc> o; opt::option<Nc> p = BAD(static_cast<opt::option<Nc>&&>(o), o);
@ deref_type | C27 | bad | fn
const opt::option<int> o; BAD(const int&, int&) r = *o; (void)r;
@ value_type_const | C27 | bad | fn
const opt::option<int> o; BAD(const int&, int&) r = o.value(); (void)r;
@ arrow_const | C27 | bad | fn
const opt::option<SenOk> o; BAD((void)o->x, o->x = 1);
@ iterator_const | C27 | bad | fn
const opt::option<int> o; for (BAD(const int&, int&) r : o) (void)r;
@ const_assign | C27 | bad | fn
BAD(opt::option<int>, const opt::option<int>) o; o = 5;
@ const_reset | C27 | bad | fn
BAD(opt::option<int>, const opt::option<int>) o; o.reset();
@ const_emplace | C27 | bad | fn
BAD(opt::option<int>, const opt::option<int>) o; o.emplace(1);
@ const_take | C27 | bad | fn
BAD(opt::option<int>, const opt::option<int>) o; (void)o.take();
@ const_swap | C27 | bad | fn
BAD(opt::option<int>, const opt::option<int>) o; opt::option<int> p; p.swap(o);
@ const_or_assign | C27 | bad | fn
BAD(opt::option<int>, const opt::option<int>) o; o |= 1;
@ const_element_assign | C27 | bad | fn
opt::option<BAD(int, const int)> o; o = 5; 
@ const_element_write | C27 | bad | fn
opt::option<BAD(int, const int)> o; *o = 5;
@ bool_conversion | C27 C25 | bad | fn
opt::option<int> o; bool b = BAD(bool(o), o); (void)b;
@ int_compare_string | C27 | bad | fn
opt::option<int> o; (void)(o == BAD(1, std::string()));
@ default_none | C27 | bad | fn
opt::none_t n BAD((opt::none), {}); (void)n;
@ ref_temp_init | C27 C16 | bad | fn
int x = 0; opt::option<const int&> o(BAD(x, 5)); (void)o;
@ ref_temp_copy_init | C27 C16 | bad | fn
int x = 0; opt::option<const int&> o = BAD(x, 5); (void)o;
@ ref_temp_assign | C27 C16 | bad | fn
const int x = 0; opt::option<const int&> o; o = BAD(x, 5);
@ ref_temp_class | C27 C16 | bad | fn
std::string s; opt::option<const std::string&> o(BAD(s, std::string{}));
@ ref_temp_convert | C27 C16 | bad | fn
std::string s; opt::option<const std::string&> o(BAD(s, "abc"));
@ ref_temp_convert_lvalue | C27 C16 | bad | fn
BAD(long, int) x = 0; opt::option<const long&> o(x);
@ ref_temp_assign_convert | C27 C16 | bad | fn
BAD(long, int) x = 0; opt::option<const long&> o; o = x;
@ ref_temp_emplace | C27 C16 | bad | fn
BAD(long, int) x = 0; opt::option<const long&> o; o.emplace(x);
@ ref_temp_try_emplace | C27 C16 | bad | fn
BAD(long, int) x = 0; opt::option<const long&> o; o.try_emplace(x);
@ ref_temp_emplace_rvalue | C27 C16 | bad | fn
const int x = 0; opt::option<const int&> o; o.emplace(BAD(x, 5));
@ ref_temp_in_place | C27 C16 | bad | fn
const std::string x; opt::option<const std::string&> o(std::in_place, BAD(x, std::string()));
@ ref_temp_make | C27 C16 | bad | fn
BAD(long, int) x = 0; (void)opt::make_option<const long&>(x);
@ ref_temp_make_rvalue | C27 C16 | bad | fn
const int x = 0; (void)opt::make_option<const int&>(BAD(x, 5));
@ ref_temp_option | C27 C16 | bad | fn
BAD(opt::option<long&>, opt::option<int&>) x; opt::option<const long&> o(x); (void)o;
@ ref_temp_option_assign | C27 C16 | bad | fn
BAD(opt::option<long&>, opt::option<int&>) x; opt::option<const long&> o; o = x;
@ ref_temp_option_value | C27 C16 | bad | fn
BAD(opt::option<std::string&>, opt::option<const char*>) x; opt::option<const std::string&> o(x); (void)o;
@ ref_temp_map | C27 C16 | bad | fn
opt::option<int> x; BAD(opt::option<long>, opt::option<const long&>) o = x.map([](int) { return 1L; }); (void)o;
@ ref_const_drop | C27 C16 | bad | fn
BAD(int, const int) x = 0; opt::option<int&> o(x); (void)o;
@ ref_const_drop_assign | C27 C16 | bad | fn
BAD(int, const int) x = 0; opt::option<int&> o; o = x;
@ ref_const_drop_option | C27 C16 | bad | fn
opt::option<BAD(int&, const int&)> x; opt::option<int&> o(x); (void)o;
@ ref_two_args | C27 C16 | bad | fn
int x = 0; opt::option<int&> o BAD((x), (x, x)); (void)o;
@ ref_zero_emplace | C27 C16 | bad | fn
int x = 0; opt::option<int&> o; o.emplace(BAD(x, ));
@ ref_value_or_temp | C27 | bad | fn
const int x = 0; opt::option<int> o; (void)o.value_or(BAD(x, dv<char*>()));
@ cast_emplace_const | C27 C25 | bad | fn
const int x = 0; opt::option<BAD(const int*, int*)> o; o.emplace(&x);
@ cast_emplace_pointer | C27 C25 | bad | fn
BAD(int, double) x = 0; opt::option<int*> o; o.emplace(&x);
@ cast_emplace_integer | C27 C25 | bad | fn
int x = 0; opt::option<int*> o; o.emplace(BAD(&x, 5L));
@ cast_emplace_enum | C27 C25 | bad | fn
opt::option<CastE> o; o.emplace(BAD(CastE::a, 5));
@ cast_emplace_down | C27 C25 | bad | fn
BAD(CastD, CastB) x{}; opt::option<CastD*> o; o.emplace(&x);
@ cast_try_emplace_const | C27 C25 | bad | fn
const int x = 0; opt::option<BAD(const int*, int*)> o; o.try_emplace(&x);
@ cast_try_emplace_pointer | C27 C25 | bad | fn
BAD(int, double) x = 0; opt::option<int*> o; o.try_emplace(&x);
@ cast_in_place_pointer | C27 C25 | bad | fn
BAD(int, double) x = 0; opt::option<int*> o(std::in_place, &x);
@ cast_make_pointer | C27 C25 | bad | fn
BAD(int, double) x = 0; (void)opt::make_option<int*>(&x);
@ cast_ctor_pointer | C27 C25 | bad | fn
BAD(int, double) x = 0; opt::option<int*> o(&x);
@ cast_assign_pointer | C27 C25 | bad | fn
BAD(int, double) x = 0; opt::option<int*> o; o = &x;
@ cast_option_pointer | C27 C25 | bad | fn
opt::option<BAD(int, double)*> x; opt::option<int*> o(x);
@ cast_option_assign_pointer | C27 C25 | bad | fn
opt::option<BAD(int, double)*> x; opt::option<int*> o; o = x;
@ cast_construct_const | C27 C25 C07 | bad | fn
const int x = 0; const opt::option<BAD(const int*, int*)> o; (void)o.value_or_construct(&x);
@ cast_construct_pointer | C27 C25 | bad | fn
BAD(int, double) x = 0; opt::option<int*> o; (void)static_cast<opt::option<int*>&&>(o).value_or_construct(&x);
@ cast_construct_integer | C27 C25 | bad | fn
int x = 0; opt::option<int*> o; (void)o.value_or_construct(BAD(&x, 5L));
@ cast_construct_ref | C27 C25 C16 | bad | fn
BAD(int, double) x = 0; opt::option<int&> o; (void)o.value_or_construct(x);
@ cast_construct_ref_const | C27 C25 C16 | bad | fn
const int x = 0; opt::option<BAD(const int&, int&)> o; (void)o.value_or_construct(x);
@ cast_value_or_const | C27 C25 | bad | fn
const int x = 0; opt::option<BAD(const int*, int*)> o; (void)o.value_or(&x);
@ cast_value_or_pointer | C27 C25 | bad | fn
BAD(int, double) x = 0; opt::option<int*> o; (void)static_cast<opt::option<int*>&&>(o).value_or(&x);
@ cast_value_or_ref | C27 C25 C16 | bad | fn
BAD(int, double) x = 0; opt::option<int&> o; (void)o.value_or(x);
@ cast_value_or_ref_const | C27 C25 C16 | bad | fn
const int x = 0; opt::option<BAD(const int&, int&)> o; (void)o.value_or(x);
@ cast_option_cast_const | C27 C25 C11 | bad | fn
opt::option<const int*> o; (void)opt::option_cast<BAD(const void*, void*)>(o);
@ cast_option_cast_pointer | C27 C25 C11 | bad | fn
const opt::option<BAD(void, double)*> o; (void)opt::option_cast<int*>(o);
@ cast_option_cast_rvalue | C27 C25 C11 | bad | fn
(void)opt::option_cast<int*>(opt::option<BAD(void, double)*>());
@ cast_option_cast_integer | C27 C25 C11 | bad | fn
opt::option<int*> o; (void)opt::option_cast<BAD(bool, long)>(o);
@ cast_option_cast_ref | C27 C25 C11 C16 | bad | fn
opt::option<BAD(int, double)&> o; (void)opt::option_cast<int&>(o);
@ cast_option_cast_ref_const | C27 C25 C11 C16 | bad | fn
opt::option<const int&> o; (void)opt::option_cast<BAD(const int&, int&)>(o);
@ cast_map_or | C27 C25 | bad | fn
int x = 0; BAD(int, double) y = 0; opt::option<int> o; (void)o.map_or(&x, [&](int) { return &y; });
@ member_pointer_const | C27 | bad | fn
opt::option<Q> o; (void)o.map(BAD(&Q::a, &SenOk::x));
'''
misc = misc.replace("opt::option<BAD(std::pair<int BAD(_UNUSED,),long>, int)> o; (void)opt::unzip(o);", "using P = std::pair<int, long>; opt::option<BAD(P, int)> o; (void)opt::unzip(o);")
UNITS = [TUnit("misuse", HDR + decl + USE + MISC_DECL, items + misc, defs=("OPTION_USE_PFR=0",))]
