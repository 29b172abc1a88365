"""C30: documented compile-time diagnostics: references kept from temporaries, discarded results, access without a check."""
from .tl import TUnit

HDR = r'''
#include <opt/option.hpp>
#include <array>
#include <deque>
#include <list>
#include <map>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>
struct P { int x; P(int); P(const P&); P(P&&); P& operator=(const P&); P& operator=(P&&); ~P();
    bool operator==(const P&) const; bool operator!=(const P&) const; bool operator<(const P&) const; bool operator<=(const P&) const; bool operator>(const P&) const; bool operator>=(const P&) const; };
struct L { int x; P* operator->(); L(int); L(const L&); L(L&&); L& operator=(const L&); L& operator=(L&&);
    bool operator==(const L&) const; bool operator!=(const L&) const; bool operator<(const L&) const; bool operator<=(const L&) const; bool operator>(const L&) const; bool operator>=(const L&) const; };
template<> struct opt::option_traits<L> { static constexpr std::uintmax_t max_level = 2;
    static std::uintmax_t get_level(const L*) noexcept; static void set_level(L*, std::uintmax_t) noexcept; };
struct G { int x; };
struct E { int x; explicit E(int); E(int, int); };
constexpr bool operator==(const G& a, const G& b) { return a.x == b.x; }
template<class T> T mk();
template<class T> const T cmk();
template<class T> T& lv();
struct Fn { template<class... X> int operator()(X&&...) const; };
struct Pr { template<class... X> bool operator()(X&&...) const; };
struct Fo { template<class... X> opt::option<int> operator()(X&&...) const; };
template<class T> struct Ft { template<class... X> opt::option<T> operator()(X&&...) const; };
template<class T> struct Fv { template<class... X> T operator()(X&&...) const; };
'''
TYPES = {"int": "int", "cls": "P", "lev": "L", "agg": "G", "ptr": "int*", "dbl": "double", "nest": "opt::option<bool>", "cst": "const P"}
ARG = {"int": "1", "cls": "1", "lev": "1", "agg": "1", "ptr": "nullptr", "dbl": "1.0", "nest": "true", "cst": "1"}

items = []


def dang(name, good, bad, groups="C30"):
    items.append("@ %s | %s | warn | fn cxx=clang++ Wdangling\nIFGOOD(%s) IFBAD(%s)\n" % (name, groups, good, bad))


def stack(name, decl, good, bad, ret):
    # a function returning what was obtained from a local (bad) or from a static object (good)
    items.append("@ %s | C30 | warn | cxx=clang++ Wreturn-stack-address\n%s f() { BAD(static, ) %s return %s; }\n" % (name, ret, decl, bad))


REF = "{ auto&& r = %s; (void)r; }"
VAL = "{ auto r = %s; (void)r; }"
for k, t in TYPES.items():
    O = "opt::option<%s>" % t
    T, C = "mk<%s>()" % O, "cmk<%s>()" % O
    LV, CL = "lv<%s>()" % O, "lv<const %s>()" % O
    for q, tmp, lv in (("", T, LV), ("c", C, CL)):
        for n, e in (("get", ".get()"), ("value", ".value()"), ("throw", ".value_or_throw()")):
            dang("%s_%s%s" % (n, k, q), REF % (lv + e), REF % (tmp + e))
            dang("%s_%s%s_mv" % (n, k, q), REF % ("static_cast<%s&&>(%s)%s" % ("const " + O if q else O, lv, e)), REF % ("static_cast<%s&&>(%s)%s" % ("const " + O if q else O, tmp, e)))
        dang("deref_%s%s" % (k, q), REF % ("*" + lv), REF % ("*" + tmp))
        dang("arrow_%s%s" % (k, q), VAL % (lv + ".operator->()"), VAL % (tmp + ".operator->()"))
        dang("ptr_%s%s" % (k, q), VAL % (lv + ".ptr_or_null()"), VAL % (tmp + ".ptr_or_null()"))
        dang("begin_%s%s" % (k, q), VAL % (lv + ".begin()"), VAL % (tmp + ".begin()"))
        dang("end_%s%s" % (k, q), VAL % (lv + ".end()"), VAL % (tmp + ".end()"))
        dang("chain_%s%s" % (k, q), VAL % ("&%s.get()" % lv), VAL % ("&static_cast<const std::remove_reference_t<decltype(%s)>&>(%s).get()" % (tmp, tmp)))
    for n in ("emplace", "try_emplace"):
        dang("%s_%s" % (n, k), REF % ("%s.%s(%s)" % (LV, n, ARG[k])), REF % ("%s.%s(%s)" % (T, n, ARG[k])))
    R = "std::remove_reference_t<%s>" % t
    for n, e, ret in (("get", "o.get()", R + "&"), ("deref", "*o", R + "&"), ("arrow", "o.operator->()", R + "*"), ("ptr", "o.ptr_or_null()", R + "*"),
                      ("value", "o.value()", R + "&"), ("throw", "o.value_or_throw()", R + "&"), ("emplace", "o.emplace(%s)" % ARG[k], R + "&"),
                      ("try", "o.try_emplace(%s)" % ARG[k], R + "&"), ("begin", "o.begin()", O + "::iterator"), ("end", "o.end()", O + "::iterator"),
                      ("xget", "static_cast<%s&&>(o).get()" % O, R + "&&"), ("xderef", "*static_cast<%s&&>(o)" % O, R + "&&"), ("xvalue", "static_cast<%s&&>(o).value()" % O, R + "&&")):
        stack("ret_%s_%s" % (n, k), O + " o;", None, e, ret)
    for n, e, ret in (("get", "o.get()", "const " + R + "&"), ("deref", "*o", "const " + R + "&"), ("arrow", "o.operator->()", "const " + R + "*"), ("ptr", "o.ptr_or_null()", "const " + R + "*"),
                      ("value", "o.value()", "const " + R + "&"), ("throw", "o.value_or_throw()", "const " + R + "&"), ("begin", "o.begin()", O + "::const_iterator"), ("end", "o.end()", O + "::const_iterator"),
                      ("xget", "static_cast<const %s&&>(o).get()" % O, "const " + R + "&&")):
        stack("ret_c%s_%s" % (n, k), "const %s o;" % O, None, e, ret)
    # get_unchecked is documented without the annotation, and value results are no references
    items.append("@ ok_%s | C30 | warn | fn cxx=clang++ Wdangling\n{ auto r = *mk<%s>(); (void)r; } { auto r = mk<%s>().get(); (void)r; } { auto r = mk<%s>().value(); (void)r; }"
                 " { int n = 0; for (auto it = lv<%s>().begin(); it != lv<%s>().end(); ++it) ++n; (void)n; } BAD(, { auto&& r = mk<%s>().get(); (void)r; })\n" % (k, O, O, O, O, O, O))

# free helpers
TUP = "opt::option<std::tuple<int, P>>"
PAI = "opt::option<std::pair<P, int>>"
ARR = "opt::option<std::array<P, 2>>"
VAR = "std::variant<int, P>"
for n, e, t in (("gettup0", "opt::get<0>(%s)", TUP), ("gettup1", "opt::get<1>(%s)", TUP), ("getpair0", "opt::get<0>(%s)", PAI), ("getarr", "opt::get<1>(%s)", ARR),
                ("gettupT", "opt::get<P>(%s)", TUP), ("getpairT", "opt::get<int>(%s)", PAI),
                ("getvar0", "opt::get<0>(%s)", VAR), ("getvar1", "opt::get<1>(%s)", VAR), ("getvarT", "opt::get<P>(%s)", VAR)):
    for q, tmp, lv in (("", "mk<%s>()" % t, "lv<%s>()" % t), ("c", "cmk<%s>()" % t, "lv<const %s>()" % t)):
        dang(n + q, VAL % (e % lv), VAL % (e % tmp))
    dang(n + "l", VAL % (e % ("lv<%s>()" % t)), VAL % (e % ("static_cast<%s&>(static_cast<%s&&>(mk<%s>()))" % ("const " + t, t, t))))
    if "var" not in n:
        items.append("@ ret_%s | C30 | warn | cxx=clang++ Wreturn-stack-address\nauto f() { BAD(static, ) %s o; return %s; }\n" % (n, t, e % "o"))
    else:
        items.append("@ ret_%s | C30 | warn | cxx=clang++ Wreturn-stack-address\nauto f() { BAD(static, ) %s o; return %s; }\n" % (n, t, e % "o"))
OP = "opt::option<P>"
for q, tmp, lv in (("", "mk<%s>()" % OP, "lv<%s>()" % OP), ("c", "cmk<%s>()" % OP, "lv<const %s>()" % OP)):
    dang("io" + q, VAL % ("opt::io(%s)" % lv), VAL % ("opt::io(static_cast<const %s&>(%s))" % (OP, tmp)))
    dang("io2" + q, VAL % ("opt::io(%s, lv<std::string>())" % lv), VAL % ("opt::io(static_cast<const %s&>(%s), lv<const std::string>())" % (OP, tmp)))
    dang("io3" + q, VAL % ("opt::io(%s, lv<std::string>())" % lv), VAL % ("opt::io(%s, static_cast<const std::string&>(mk<std::string>()))" % "lv<const opt::option<P>>()"))
items.append("@ ret_io | C30 | warn | cxx=clang++ Wreturn-stack-address\nauto f() { BAD(static, ) %s o; return opt::io(o); }\n" % OP)
items.append("@ ret_io_c | C30 | warn | cxx=clang++ Wreturn-stack-address\nauto f() { BAD(static, ) const %s o; return opt::io(o); }\n" % OP)
items.append("@ ret_io2 | C30 | warn | cxx=clang++ Wreturn-stack-address\nauto f() { BAD(static, ) %s o; return opt::io(o, lv<std::string>()); }\n" % OP)
items.append("@ ret_io3 | C30 | warn | cxx=clang++ Wreturn-stack-address\nauto f() { BAD(static, ) std::string s; return opt::io(lv<%s>(), s); }\n" % OP)
items.append("@ ret_io4 | C30 | warn | cxx=clang++ Wreturn-stack-address\nauto f() { BAD(static, ) std::string s; return opt::io(lv<const %s>(), s); }\n" % OP)
CONT = {"vec": "std::vector<P>", "arr": "std::array<P, 3>", "deq": "std::deque<P>", "str": "std::string"}
for n, t in CONT.items():
    for f, e in (("at", "opt::at(%s, 1)"), ("front", "opt::at_front(%s)"), ("back", "opt::at_back(%s)")):
        dang("%s_%s" % (f, n), VAL % (e % ("lv<%s>()" % t)), VAL % (e % ("mk<%s>()" % t)))
        dang("%s_%sc" % (f, n), VAL % (e % ("lv<const %s>()" % t)), VAL % (e % ("cmk<%s>()" % t)))
        items.append("@ ret_%s_%s | C30 | warn | cxx=clang++ Wreturn-stack-address\nopt::option<%s::value_type&> f() { BAD(static, ) %s v = lv<%s>(); return %s; }\n" % (f, n, t, t, t, e % "v"))
for n, t in {"map": "std::map<int, P>", "umap": "std::unordered_map<int, P>"}.items():
    dang("lookup_" + n, VAL % ("opt::lookup(lv<const %s>(), 1)" % t), VAL % ("opt::lookup(static_cast<const %s&>(mk<%s>()), 1)" % (t, t)))
    items.append("@ ret_lookup_%s | C30 | warn | cxx=clang++ Wreturn-stack-address\nopt::option<P&> f() { BAD(static, ) %s v; return opt::lookup(v, 1); }\n" % (n, t))
    items.append("@ ret_lookup_c%s | C30 | warn | cxx=clang++ Wreturn-stack-address\nopt::option<const P&> f() { BAD(static, ) const %s v; return opt::lookup(v, 1); }\n" % (n, t))

# discarded results, both compilers
def disc(name, expr, extra=""):
    items.append("@ disc_%s | C30 | warn | fn Wunused-result %s\nIFGOOD((void)(%s);) IFBAD(%s;)\n" % (name, extra, expr, expr))


# the five value categories of an option expression
def cats(O):
    return {"l": "lv<%s>()" % O, "c": "lv<const %s>()" % O, "x": "static_cast<%s&&>(lv<%s>())" % (O, O), "k": "static_cast<const %s&&>(lv<%s>())" % (O, O)}


for k in ("int", "cls", "lev", "agg"):
    t = TYPES[k]
    O = "opt::option<%s>" % t
    mem = {"begin": ("begin()", "lcxk"), "end": ("end()", "lcxk"), "has_value": ("has_value()", "lcxk"), "bool": ("operator bool()", "lcxk"),
           "has_value_and": ("has_value_and(Pr{})", "lcxk"), "take": ("take()", "lx"), "take_if": ("take_if(Pr{})", "lx"),
           "get": ("get()", "lcxk"), "arrow": ("operator->()", "lcxk"), "deref": ("operator*()", "lcxk"), "get_unchecked": ("get_unchecked()", "lcxk"),
           "value": ("value()", "lcxk"), "value_or_throw": ("value_or_throw()", "lcxk"),
           "value_or": ("value_or(%s)" % ("G{1}" if k == "agg" else ARG[k]), "lcxk"), "value_or_construct": ("value_or_construct(%s)" % ARG[k], "lcxk"),
           "map_or": ("map_or(1, Fn{})", "lcxk"), "map_or_else": ("map_or_else(Fn{}, Fn{})", "lcxk"), "ptr_or_null": ("ptr_or_null()", "lcxk"),
           "filter": ("filter(Pr{})", "lcxk"), "and_then": ("and_then(Fo{})", "lcxk"), "map": ("map(Fn{})", "lcxk"), "or_else": ("or_else(Ft<%s>{})" % t, "lcxk")}
    for m, (e, cs) in mem.items():
        for c in cs:
            disc("%s_%s_%s" % (m, k, c), "%s.%s" % (cats(O)[c], e))
    U = "lv<%s>()" % t
    for c, a in cats(O).items():
        disc("or_v_%s_%s" % (k, c), "%s | %s" % (a, U))
        disc("option_cast_%s_%s" % (k, c), "opt::option_cast<%s>(%s)" % (t, a))
        disc("zip_%s_%s" % (k, c), "opt::zip(%s, 1)" % a if False else "opt::zip(%s, lv<opt::option<int>>())" % a)
        disc("zip_with_%s_%s" % (k, c), "opt::zip_with(Fn{}, %s)" % a)
        for d, b in cats(O).items():
            disc("or_%s_%s%s" % (k, c, d), "%s | %s" % (a, b))
            disc("and_%s_%s%s" % (k, c, d), "%s & %s" % (a, b))
            disc("xor_%s_%s%s" % (k, c, d), "%s ^ %s" % (a, b))
    for on, o in (("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
        a = "lv<%s>()" % O
        if k != "agg":
            disc("%s_oo_%s" % (on, k), "%s %s %s" % (a, o, a), "cxx=g++")
            disc("%s_ov_%s" % (on, k), "%s %s %s" % (a, o, U), "cxx=g++")
            disc("%s_vo_%s" % (on, k), "%s %s %s" % (U, o, a), "cxx=g++")
        disc("%s_on_%s" % (on, k), "%s %s opt::none" % (a, o), "cxx=g++")
        disc("%s_no_%s" % (on, k), "opt::none %s %s" % (o, a), "cxx=g++")
    disc("make_%s" % k, "opt::make_option(%s)" % U)
    disc("makeT_%s" % k, "opt::make_option<%s>(%s)" % (t, ARG[k]))
    disc("from_nullable_%s" % k, "opt::from_nullable(&%s)" % U)
    disc("from_nullable_c%s" % k, "opt::from_nullable(&lv<const %s>())" % t)
    for c, a in cats("opt::option<%s>" % O).items():
        disc("flatten_%s_%s" % (k, c), "opt::flatten(%s)" % a)
    for c, a in cats("opt::option<std::tuple<%s, int>>" % t).items():
        disc("unzip_%s_%s" % (k, c), "opt::unzip(%s)" % a)
        disc("get0_%s_%s" % (k, c), "opt::get<0>(%s)" % a)
        disc("getT_%s_%s" % (k, c), "opt::get<%s>(%s)" % (t, a) if k != "int" else "opt::get<1>(%s)" % a)
    if k != "int":
        for c, a in cats("std::variant<int, %s>" % t).items():
            disc("vget_%s_%s" % (k, c), "opt::get<1>(%s)" % a)
            disc("vgetT_%s_%s" % (k, c), "opt::get<%s>(%s)" % (t, a))
    if k == "int":
        disc("as_option", "opt::as_option(lv<const double>())")
    disc("io_%s" % k, "opt::io(lv<%s>())" % O)
    disc("io_c%s" % k, "opt::io(lv<const %s>())" % O)
    disc("io2_%s" % k, "opt::io(lv<%s>(), lv<%s>())" % (O, t))
    disc("io2_c%s" % k, "opt::io(lv<const %s>(), lv<%s>())" % (O, t))
    for n, ct in {"vec": "std::vector<%s>" % t, "arr": "std::array<%s, 2>" % t}.items():
        for q in ("", "const "):
            Q = "c" if q else ""
            X = "lv<%s%s>()" % (q, ct) if n != "c" else "lv<%s%s>()" % (q, ct)
            disc("at_%s_%s%s" % (n, k, Q), "opt::at(%s, 1)" % X)
            disc("front_%s_%s%s" % (n, k, Q), "opt::at_front(%s)" % X)
            disc("back_%s_%s%s" % (n, k, Q), "opt::at_back(%s)" % X)
    for n, ct in {"map": "std::map<int, %s>" % t, "umap": "std::unordered_map<int, %s>" % t}.items():
        disc("lookup_%s_%s" % (n, k), "opt::lookup(lv<%s>(), 1)" % ct)
        disc("lookup_%s_c%s" % (n, k), "opt::lookup(lv<const %s>(), 1)" % ct)
    disc("make_il_%s" % k, "opt::make_option<std::vector<int>>({1, 2})")
    it, kit = "lv<%s::iterator>()" % O, "lv<%s::const_iterator>()" % O
    for q, i in (("", it), ("k", kit), ("c", "lv<const %s::iterator>()" % O)):
        for n, e in (("deref", "*%s"), ("arrow", "%s.operator->()"), ("plus", "%s + 1"), ("rplus", "1 + %s"), ("minus", "%s - 1"), ("index", "%s[0]")):
            disc("it%s_%s_%s" % (q, n, k), e % i)
        disc("it%s_diff_%s" % (q, k), "%s - %s" % (i, i))
        for on, o in (("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
            disc("it%s_%s_%s" % (q, on, k), "%s %s %s" % (i, o, i), "cxx=g++")
    for c, a in cats("opt::option<std::vector<%s>>" % t).items():
        disc("voc_il_%s_%s" % (k, c), "%s.value_or_construct({lv<%s>(), lv<%s>()})" % (a, t, t))
    # commands may be discarded
    items.append("@ cmd_%s | C30 | warn | fn Wunused-result\n%s o; o.reset(); o.emplace(%s); o.try_emplace(%s); o.inspect(Fn{}); static_cast<%s&&>(o).inspect(Fn{}); lv<const %s>().inspect(Fn{}); o = opt::none; o = %s; o.swap(o); opt::swap(o, o); o |= o;"
                 " BAD(, o.map(Fn{});)\n" % (k, O, ARG[k], ARG[k], O, O, U))
UNITS = [TUnit("warnings", HDR, "".join(items), chunk=400)]

# annotation checking, clang only
C = []
for k in ("int", "cls", "lev", "agg", "ptr"):
    t = TYPES[k]
    O, a = "opt::option<%s>" % t, ("%s{%s}" % (t, ARG[k]) if k != "ptr" else "lv<int*>()")
    ACC = {"get": "(void)%s.get();", "deref": "(void)*%s;", "arrow": "(void)%s.operator->();"}
    HAS = {"ctor": "%s o(%s);" % (O, a), "inpl": "%s o(std::in_place, %s);" % (O, ARG[k]), "emp": "%s o; o.emplace(%s);" % (O, ARG[k]), "try": "%s o; o.try_emplace(%s);" % (O, ARG[k]),
           "asg": "%s o; o = %s;" % (O, a), "if": "%s o = mk<%s>(); if (!o) return;" % (O, O), "hasv": "%s o = mk<%s>(); if (!o.has_value()) return;" % (O, O),
           "make": "auto o = opt::make_option<%s>(%s);" % (t, ARG[k]), "makv": "auto o = opt::make_option(%s);" % a,
           "chk2": "%s o; if (!o.has_value()) o.emplace(%s);" % (O, ARG[k])}
    NOT = {"dflt": "%s o;" % O, "none": "%s o = opt::none;" % O, "asn": "%s o(%s); o = opt::none;" % (O, a), "reset": "%s o(%s); o.reset();" % (O, a),
           "unk": "%s o = mk<%s>();" % (O, O), "neg": "%s o = mk<%s>(); if (o) return;" % (O, O), "negh": "%s o = mk<%s>(); if (o.has_value()) return;" % (O, O),
           "take": "%s o(%s); (void)o.take();" % (O, a), "emp_reset": "%s o; o.emplace(%s); o.reset();" % (O, ARG[k]), "emp_none": "%s o; o.emplace(%s); o = opt::none;" % (O, ARG[k])}
    for an, acc in ACC.items():
        for n, code in NOT.items():
            C.append("@ u_%s_%s_%s | C30 | warn | fn Wconsumed\n%s IFGOOD(if (o) { %s }) IFBAD(%s)\n" % (k, n, an, code, acc % "o", acc % "o"))
        for n, code in HAS.items():
            C.append("@ c_%s_%s_%s | C30 | warn | fn Wconsumed\nIFGOOD(%s %s) IFBAD(%s o2; %s)\n" % (k, n, an, code, acc % "o", O, acc % "o2"))
        C.append("@ m_%s_%s | C30 | warn | fn Wconsumed\n%s o = mk<%s>(); IFGOOD(if (!o) return; %s) IFBAD(%s)\n" % (k, an, O, O, acc % ("static_cast<%s&&>(o)" % O), acc % ("static_cast<%s&&>(o)" % O)))
        C.append("@ k_%s_%s | C30 | warn | fn Wconsumed\nconst %s o; IFGOOD(if (!o) return; %s) IFBAD(%s)\n" % (k, an, O, acc % "o", acc % "o"))
        C.append("@ kk_%s_%s | C30 | warn | fn Wconsumed\nconst %s o; IFGOOD(if (!o) return; %s) IFBAD(%s)\n" % (k, an, O, acc % ("static_cast<const %s&&>(o)" % O), acc % ("static_cast<const %s&&>(o)" % O)))
    for n, code in {"expl": "opt::option<E> o(1);", "multi": "opt::option<E> o(1, 2);", "inil": "opt::option<std::vector<int>> o(std::in_place, {1, 2});", "make_il": "auto o = opt::make_option<std::vector<int>>({1, 2});",
                    "init": "opt::option<E> o = E(1);", "list": "opt::option<E> o{1, 2};", "make2": "auto o = opt::make_option<E>(1, 2);"}.items() if k == "int" else ():
        for an, acc in ACC.items():
            C.append("@ e_%s_%s | C30 | warn | fn Wconsumed\nIFGOOD(%s %s) IFBAD(opt::option<E> o; %s)\n" % (n, an, code, acc % "o", acc % "o"))
    # members that check themselves, or that document that they do not
    C.append("@ s_%s | C30 | warn | fn Wconsumed\n%s o; (void)o.value(); (void)o.value_or_throw(); (void)o.ptr_or_null(); (void)o.map(Fn{}); (void)o.and_then(Fo{}); (void)o.filter(Pr{}); o.inspect(Fn{});"
             " (void)o.get_unchecked(); (void)o.take_if(Pr{}); BAD(, (void)o.get();)\n" % (k, O))
UNITS.append(TUnit("consumed", HDR, "".join(C), cxx=("clang++",), defs=("OPTION_CONSUMED_ANNOTATION_CHECKING=1",)))
