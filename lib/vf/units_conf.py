"""Whole programs for C29: include orders, self-containedness, translation modes.  Each program has to be accepted by
the compiler in every listed mode; the facts asserted in it do not depend on the order of the headers."""
import re

# (name, header, declarations after both headers)
STD = [
    ("string_view", "string_view", "using S = std::string_view; @FITS(S) opt::option<S> f() { return S(\"a\"); } bool g(const opt::option<S>& o) { return o.has_value() && o->size() == 1 && *o == \"a\"; }"),
    ("string", "string", "using S = std::string; @FITS(S) opt::option<S> f() { opt::option<S> o; o.emplace(\"a\"); o = S(\"b\"); o.reset(); return o; } auto g(opt::option<S> a) { return a.value_or(\"x\"); } std::size_t h(const opt::option<S>& o) { return std::hash<opt::option<S>>{}(o); }"),
    ("wstring", "string", "using S = std::wstring; @FITS(S) opt::option<S> f() { return S(L\"a\"); } opt::option<std::u16string> u; opt::option<std::u32string> v; @FITS(std::u16string) @FITS(std::u32string)"),
    ("vector", "vector", "using V = std::vector<int>; @FITS(V) opt::option<V> f() { opt::option<V> o(std::in_place, {1, 2, 3}); o->push_back(4); return o; } auto g(const V& v) { return opt::at(v, 1); } auto h(V& v) { return opt::at_front(v).has_value() && opt::at_back(v).has_value(); }"),
    ("unique_ptr", "memory", "using P = std::unique_ptr<int>; @FITS(P) opt::option<P> f() { opt::option<P> o; o.emplace(nullptr); return o; } struct X { int x; }; opt::option<std::unique_ptr<X>> g(opt::option<std::unique_ptr<X>> a) { return a.take(); }"),
    ("shared_ptr", "memory", "opt::option<std::shared_ptr<int>> f() { opt::option<std::shared_ptr<int>> o; o.emplace(nullptr); return o; } int g(const opt::option<std::shared_ptr<int>>& o) { return o.has_value() ? **o : 0; }"),
    ("array", "array", "using A = std::array<bool, 3>; @FITS(A) opt::option<A> f() { return A{}; } int g(const opt::option<std::array<int, 2>>& o) { auto [a, b] = opt::unzip(o.map([](const std::array<int, 2>& x) { return std::make_pair(x[0], x[1]); })); return *a + *b; } auto h(std::array<int, 3>& a) { return opt::at(a, 1); }"),
    ("variant", "variant", "using V = std::variant<int, bool>; V v; auto f() { return opt::get<bool>(v); } auto g() { return opt::get<int>(v).map([](int x) { return x + 1; }); } opt::option<V> o{V(1)};"),
    ("tuple", "tuple", "using U = std::tuple<int, bool>; @FITS(U) opt::option<U> f() { return opt::zip(opt::option<int>(1), opt::option<bool>(true)); } auto g(const opt::option<U>& u) { return opt::unzip(u); }"),
    ("pair", "utility", "using U = std::pair<int, bool>; @FITS(U) opt::option<U> f() { return U(1, true); } auto g(const opt::option<U>& u) { return opt::unzip(u); }"),
    ("complex", "complex", "opt::option<std::complex<float>> f() { return std::complex<float>(1, 2); } float g(const opt::option<std::complex<float>>& o) { return o->real(); }"),
    ("function", "functional", "opt::option<std::function<int()>> f() { opt::option<std::function<int()>> o; o.emplace([] { return 1; }); return o; } int h(const opt::option<int&>& o) { return o.map([](int& x) { return std::ref(x); })->get(); }"),
    ("reference_wrapper", "functional", "using R = std::reference_wrapper<int>; opt::option<R> f(int& x) { return R(x); } int g(opt::option<R> o) { return o->get(); }"),
    ("hash", "functional", "std::size_t f(const opt::option<int>& o) { return std::hash<opt::option<int>>{}(o); }"),
    ("unordered", "unordered_map", "std::unordered_map<int, int> m; std::unordered_map<opt::option<int>, int> q; auto f() { return opt::lookup(m, 3); } auto g() { return q.find(opt::option<int>(3)) == q.end(); }"),
    ("map", "map", "std::map<int, int> m; std::map<opt::option<int>, int> q; auto f() { return opt::lookup(m, 3); } auto g() { return q.find(opt::option<int>(3)) == q.end(); }"),
    ("iterator", "iterator", "auto f(opt::option<int>& o) { return std::distance(o.begin(), o.end()); } static_assert(std::is_same_v<std::iterator_traits<decltype(std::declval<opt::option<int>&>().begin())>::value_type, int>);"),
    ("algorithm", "algorithm", "auto f(opt::option<int>& o) { return std::find(o.begin(), o.end(), 3) != o.end(); } auto g(opt::option<int>& o) { return std::count_if(o.begin(), o.end(), [](int x) { return x > 1; }); }"),
    ("iostream", "iostream", "void f(const opt::option<int>& o) { std::cout << opt::io(o) << opt::io(o, \"x\"); } void g(opt::option<int>& o, int& i) { std::cin >> opt::io(o, i); }"),
    ("optional", "optional", "opt::option<std::optional<int>> f() { return std::optional<int>(3); } std::optional<opt::option<int>> g() { return opt::option<int>(3); }"),
    ("any", "any", "opt::option<std::any> f() { opt::option<std::any> o; o.emplace(std::any(3)); return o; }"),
    ("exception", "exception", "bool f(const opt::option<int>& o) { try { return o.value() == 3; } catch (const std::exception& e) { return e.what() != nullptr; } }"),
    ("compare", "type_traits", "struct S { int x; }; using O = opt::option<S>; static_assert(std::is_trivially_copyable_v<opt::option<int>>); bool f(const opt::option<int>& a, const opt::option<long>& b) { return a == b || a < b || a == 3 || a == opt::none; }"),
]

FITS = "static_assert(sizeof(opt::option<@>) == sizeof(@));"
OPTION = "#include <opt/option.hpp>"
CORE = '''
struct X { X(int); X(const X&); X& operator=(const X&); ~X(); int v; bool operator==(const X&) const; };
struct E {}; struct Agg { int a; int b; };
opt::option<int> f1() { return 1; } opt::option<X> f2() { return opt::none; } opt::option<int&> f3(int& x) { return x; }
opt::option<opt::option<int>> f4() { return opt::option<int>(3); } opt::option<E> f5() { return E(); } opt::option<Agg> f6() { return opt::make_option<Agg>(1, 2); }
int g1(const opt::option<int>& o) { return o ? *o + o.get() + o.value_or(3) : 0; } int g2(const opt::option<X>& o) { return o->v + o.get().v; }
auto g3(opt::option<X>& o) { o.emplace(1); o = X(2); o.reset(); o = opt::none; opt::option<X> c(o); c.swap(o); c = o; return c == o; }
auto g4(const opt::option<int>& o) { return o.map([](int x) { return x * 2.0; }).and_then([](double d) { return opt::option<int>(static_cast<int>(d)); }).filter([](int x) { return x > 1; }).or_else([] { return opt::option<int>(3); }); }
auto g5(opt::option<int> a, opt::option<int> b) { return (a | b) == (a & b) || (a ^ b) == (a | 3) || a != b || a < b || a >= 3 || opt::none == a; }
auto g7(opt::option<int>& a) { int s = 0; for (int& x : a) { s += x; } return s; }
auto g8(const opt::option<int>& a) { return a.map_or(1, [](int x) { return x; }) + a.map_or_else([] { return 1; }, [](int x) { return x; }) + a.ptr_or_null()[0]; }
auto g9(opt::option<X> a) { return opt::option<X>(a.take()).has_value_and([](const X& x) { return x.v > 1; }); }
auto g10(opt::option<opt::option<int>> a) { return opt::flatten(a); } auto g11(opt::option<int>& a) { return a.value_or_construct(3); }
'''
NOEXC = {"exception"}


def sub(t):
    return re.sub(r"@FITS\((.*?)\)", lambda m: FITS.replace("@", m.group(1)), t)


# aggregates that structured bindings or the reflection library cannot take apart: an option of them uses a flag
UNREFLECTABLE = [
    ("c_array", "struct S { int n; char name[16]; };"),
    ("base", "struct B { int x; }; struct S : B { int y; };"),
    ("empty_base", "struct B {}; struct S : B { int y; };"),
    ("bit_field", "struct S { unsigned a : 3; unsigned b : 5; };"),
    ("anonymous_union", "struct S { union { int a; float b; }; int c; };"),
    ("private_base_ctor", "struct S { explicit S(int); int v; };"),
    ("deleted_default", "struct S { S() = delete; S(int); int x; };"),
    ("constant_member", "struct S { int x; static constexpr int y = 3; };"),
    ("virtual", "struct S { virtual ~S(); int x; };"),
    ("nested", "struct N { int a; bool b; }; struct S { N n; double d; };"),
    ("empty", "struct S {};"),
    ("empty_members", "struct E {}; struct S { E e; int x; };"),
    ("pointers", "struct S { S* next; int v; };"),
    ("many", "struct S { int a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, c0, c1, c2, c3, c4, c5; };"),
]


def programs():
    """-> [(name, source, extra flags, needs builtin traits)]"""
    out = [
        ("alone", OPTION + CORE, ()),
        ("alone_noexcept", OPTION + CORE, ("-fno-exceptions",)),
        ("alone_nortti", OPTION + CORE, ("-fno-rtti",)),
        ("alone_noexcept_nortti", OPTION + CORE, ("-fno-exceptions", "-fno-rtti")),
        ("alone_optimised", OPTION + CORE, ("-O2", "-DNDEBUG")),
        ("alone_sanitized", OPTION + CORE, ("-fsanitize=undefined,address",)),
        ("alone_signed_char", OPTION + CORE, ("-funsigned-char",)),
        ("alone_short_enums", OPTION + CORE, ("-fshort-enums",)),
        ("alone_gnu", OPTION + CORE, ("-std=gnu++20",)),
        ("alone_warnings", OPTION + CORE, ("-Wall", "-Wextra", "-Werror")),
        ("twice", OPTION + "\n" + OPTION + CORE, ()),
        ("fwd_first", "#include <opt/option_fwd.hpp>\nstruct Y; opt::option<Y> fwd(); opt::option<Y&>& fwd2(); static_assert(opt::is_option_v<opt::option<int>> && !opt::is_option_v<int>);\n" + OPTION + CORE + "struct Y { int x; }; int use(opt::option<Y> o) { return o->x; }", ()),
        ("fwd_only", "#include <opt/option_fwd.hpp>\nstruct Y; opt::option<Y> fwd(); void fwd2(const opt::option<int>&, opt::option<Y&>*); static_assert(opt::is_option<opt::option<Y>>::value && !opt::is_option<Y>::value); using N = opt::none_t; const N n = opt::none; template<class T> struct opt::option_traits<T*> { };", ()),
        ("fwd_after", OPTION + "\n#include <opt/option_fwd.hpp>" + CORE, ()),
        ("custom_before", "#include <opt/option_fwd.hpp>\n#include <cstdint>\nstruct C { int x; }; template<> struct opt::option_traits<C> { static constexpr std::uintmax_t max_level = 2; static std::uintmax_t get_level(const C*) noexcept; static void set_level(C*, std::uintmax_t) noexcept; };\n" + OPTION
         + "\nstatic_assert(sizeof(opt::option<C>) == sizeof(C)); opt::option<C> f() { return C{1}; }", ()),
        ("incomplete", OPTION + "\nstruct Y; opt::option<Y> fwd(); opt::option<Y&> r; opt::option<Y*> p; struct L { int v; opt::option<L&> next; }; struct Y { int x; }; int use(opt::option<Y> o) { return o->x; } int h(const L& l) { return l.next ? l.next->v : 0; }", ()),
        ("templates", OPTION + "\ntemplate class opt::option<int>; template class opt::option<int*>; template class opt::option<float>;", ()),
    ]
    for n, d in UNREFLECTABLE:
        out.append(("aggregate_" + n, OPTION + "\n" + d + " static_assert(sizeof(opt::option<S>) >= sizeof(S)); opt::option<S> f(const opt::option<S>& o) { opt::option<S> c(o); c = o; c.reset(); return c; } bool g(const opt::option<S>& o) { return o.has_value(); }", ("both",)))
    for n, h, t in STD:
        out.append((n + "_after", OPTION + "\n#include <%s>\n" % h + sub(t), ()))
        out.append((n + "_before", "#include <%s>\n" % h + OPTION + "\n" + sub(t), ()))
        if n not in NOEXC:
            out.append((n + "_noexcept", OPTION + "\n#include <%s>\n" % h + sub(t), ("-fno-exceptions",)))
    allh = sorted({h for _, h, _ in STD})
    inc = "".join("#include <%s>\n" % h for h in allh)
    rev = "".join("#include <%s>\n" % h for h in reversed(allh))
    body = "".join("namespace n_%s { %s }\n" % (n, sub(t)) for n, _, t in STD)
    out.append(("all_after", OPTION + "\n" + inc + body, ()))
    out.append(("all_before", inc + OPTION + "\n" + body, ()))
    out.append(("all_reversed", rev + OPTION + "\n" + body, ()))
    out.append(("all_around", inc[:len(inc) // 2].rpartition("\n")[0] + "\n" + OPTION + "\n" + rev + body, ()))
    return out


# macro settings under which every program is translated
MODES = [
    ("default", ()),
    ("no PFR", ("-DOPTION_USE_PFR=0",)),
    ("no PFR, no forward declarations", ("-DOPTION_USE_PFR=0", "-DOPTION_FORWARD_DECLARE_STD=0")),
    ("no forward declarations", ("-DOPTION_FORWARD_DECLARE_STD=0",)),
    ("PFR required", ("-DOPTION_USE_PFR=1",)),
    ("builtin traits off", ("-DOPTION_USE_BUILTIN_TRAITS=0", "-DOPTION_USE_PFR=0")),
    ("NDEBUG", ("-DNDEBUG", "-DOPTION_USE_PFR=0")),
    ("annotation checking", ("-DOPTION_CONSUMED_ANNOTATION_CHECKING=1", "-DOPTION_USE_PFR=0")),
]
QUICK_MODES = {"default", "no PFR", "no PFR, no forward declarations", "PFR required", "builtin traits off"}
UNITS = []
