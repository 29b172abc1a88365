"""Nested options: every emptiness level is a state of its own, kept apart by every operation."""
import re
from .must import Unit

PRE = r'''
template<class O> struct dep { static constexpr unsigned v = 0; };
template<class T> struct dep<opt::option<T>> { static constexpr unsigned v = 1 + dep<T>::v; };
// number of engaged layers, outermost first
template<class O> unsigned lev(const O& o) { if constexpr (opt::is_option_v<O>) { if (!o.has_value()) return 0; return 1 + lev(o.get()); } else { return 0; } }
template<class O> struct leaf_of { using type = O; };
template<class T> struct leaf_of<opt::option<T>> { using type = typename leaf_of<T>::type; };
template<class O, class V> void put(O& o, unsigned k, V& v) {
    o.reset(); if (k == 0) return;
    if constexpr (opt::is_option_v<typename O::value_type>) { o.emplace(); put(o.get(), k - 1, v); } else { o.emplace(v); }
}
template<class O, class V> bool holds(const O& o, const V& v) {
    if constexpr (opt::is_option_v<O>) { return holds(o.get(), v); } else { return same(o, v); }
}
// operations on one layer
template<unsigned I, class O> auto& layer(O& o) { if constexpr (I == 0) { return o; } else { return layer<I - 1>(o.get()); } }
template<class O, class F> void at_layer(O& o, unsigned i, F f) { if (i == 0) { f(o); return; } if constexpr (opt::is_option_v<typename O::value_type>) at_layer(o.get(), i - 1, f); }
using N1 = opt::option<L>; using N2 = opt::option<N1>; using N3 = opt::option<N2>; using N4 = opt::option<N3>; using N5 = opt::option<N4>; using N6 = opt::option<N5>;
template<class O, class V> void expect(const O& o, unsigned k, const V& v) { MUST(lev(o) == k); if (k == dep<O>::v) MUST(holds(o, v)); }
template<class O, class V> void t_states(unsigned k, V& v) { O a; MUST(lev(a) == 0); put(a, k, v); expect(a, k, v); }
template<class O, class V> void t_copy(unsigned k, V& v) { O a; put(a, k, v); O b(a); expect(b, k, v); expect(a, k, v); const O& c = a; O d{c}; expect(d, k, v); O e; e = a; expect(e, k, v); expect(a, k, v); }
template<class O, class V> void t_move(unsigned k, V& v) { O a; put(a, k, v); O b(static_cast<O&&>(a)); expect(b, k, v); MUST(lev(a) == k); O e; e = static_cast<O&&>(b); expect(e, k, v); MUST(lev(b) == k); }
template<class O, class V> void t_assign(unsigned k, unsigned j, V& v, V& w) { O a, b; put(a, k, v); put(b, j, w); a = b; expect(a, j, w); expect(b, j, w); }
template<class O, class V> void t_move_assign(unsigned k, unsigned j, V& v, V& w) { O a, b; put(a, k, v); put(b, j, w); a = static_cast<O&&>(b); expect(a, j, w); MUST(lev(b) == j); }
template<class O, class V> void t_swap(unsigned k, unsigned j, V& v, V& w) { O a, b; put(a, k, v); put(b, j, w); a.swap(b); expect(a, j, w); expect(b, k, v); }
template<class O, class V> void t_reset(unsigned k, unsigned i, V& v) { O a; put(a, k, v); if (i > k || i >= dep<O>::v) return; at_layer(a, i, [](auto& o) { o.reset(); }); expect(a, i, v); }
template<class O, class V> void t_none(unsigned k, unsigned i, V& v) { O a; put(a, k, v); if (i > k || i >= dep<O>::v) return; at_layer(a, i, [](auto& o) { o = opt::none; }); expect(a, i, v); }
template<class O, class V> void t_engage(unsigned k, unsigned i, V& v, V& w) { O a; put(a, k, v); if (i > k || i >= dep<O>::v) return; at_layer(a, i, [&](auto& o) { using U = std::remove_reference_t<decltype(o)>; if constexpr (opt::is_option_v<typename U::value_type>) o.emplace(); else o.emplace(w); }); expect(a, i + 1, w); }
template<class O, class V> void t_take(unsigned k, V& v) { O a; put(a, k, v); O t = a.take(); expect(t, k, v); MUST(lev(a) == 0); }
template<class O, class V> void t_replace(unsigned k, unsigned j, V& v, V& w) { O a; put(a, k, v); typename O::value_type x; put(x, j, w); a = x; expect(a, 1 + j, w); expect(x, j, w); a.reset(); a = static_cast<typename O::value_type&&>(x); expect(a, 1 + j, w); }
template<class O, class V> void t_emplace_inner(unsigned k, unsigned j, V& v, V& w) { O a; put(a, k, v); typename O::value_type x; put(x, j, w); a.emplace(x); expect(a, 1 + j, w); O b(std::in_place, x); expect(b, 1 + j, w); O c(x); expect(c, 1 + j, w); }
template<class O, class V> void t_get_or(unsigned k, V& v) { O a; put(a, k, v); typename O::value_type d; typename O::value_type r = a.value_or(d); expect(r, k == 0 ? 0 : k - 1, v); expect(a, k, v); }
template<class O> const auto& innermost(const O& o) { if constexpr (opt::is_option_v<typename O::value_type>) return innermost(o.get()); else return o.get(); }
template<class O, class V> void t_flatten(unsigned k, V& v) { O a; put(a, k, v); { auto r = opt::flatten(a); MUST(r.has_value() == (k == dep<O>::v)); if (r) MUST(&r.get() == &innermost(a)); const O& c = a; auto q = opt::flatten(c); MUST(q.has_value() == (k == dep<O>::v)); if (q) MUST(&q.get() == &innermost(a)); } expect(a, k, v); auto m = opt::flatten(static_cast<O&&>(a)); MUST(m.has_value() == (k == dep<O>::v)); if (m) MUST(same(*m, v)); }
template<class O, class V> void t_eq(unsigned k, unsigned j, V& v, V& w) { O a, b; put(a, k, v); put(b, j, w); const bool e = a == b; MUST(e == (k == j && (k != dep<O>::v || v == w))); MUST((a != b) == !e); MUST((a == opt::none) == (k == 0)); MUST((opt::none != b) == (j != 0)); }
template<class O, class V> void t_lt(unsigned k, unsigned j, V& v, V& w) { O a, b; put(a, k, v); put(b, j, w); const bool e = a < b; MUST(e == (k < j || (k == j && k == dep<O>::v && v < w))); MUST((a >= b) == !e); MUST((b > a) == e); MUST((b <= a) == !e); MUST((opt::none < b) == (j != 0)); }
template<class O, class V> void t_or_else(unsigned k, unsigned j, V& v, V& w) { O a, b; put(a, k, v); put(b, j, w); auto r = a | b; expect(r, k ? k : j, k ? v : w); expect(a, k, v); expect(b, j, w); a |= b; expect(a, k ? k : j, k ? v : w); }
template<class O, class V> void t_ptr(unsigned k, V& v) { O a; put(a, k, v); auto* p = a.ptr_or_null(); MUST((p != nullptr) == (k > 0)); if (p) { MUST(p == &a.get()); MUST(lev(*p) == k - 1); } }
'''
BODY = r'''
@ states | C22 C18 | {P}, U64 k [0..{D}] | throws
t_states<{O}>(k, v);
@ copy | C22 C03 | {P}, U64 k [0..{D}] | throws
t_copy<{O}>(k, v);
@ move | C22 C03 | {P}, U64 k [0..{D}] | throws
t_move<{O}>(k, v);
@ assign | C22 C03 | {P}, U64 k [0..{D}], U64 j [0..{D}] | throws
t_assign<{O}>(k, j, v, w);
@ move_assign | C22 C03 | {P}, U64 k [0..{D}], U64 j [0..{D}] | throws
t_move_assign<{O}>(k, j, v, w);
@ swap | C22 C05 | {P}, U64 k [0..{D}], U64 j [0..{D}] | throws
t_swap<{O}>(k, j, v, w);
@ reset | C22 C04 C18 | {P}, U64 k [0..{D}], U64 i [0..{D}] | throws
t_reset<{O}>(k, i, v);
@ none | C22 C04 | {P}, U64 k [0..{D}], U64 i [0..{D}] | throws
t_none<{O}>(k, i, v);
@ engage | C22 C04 | {P}, U64 k [0..{D}], U64 i [0..{D}] | throws
t_engage<{O}>(k, i, v, w);
@ take | C22 C04 | {P}, U64 k [0..{D}] | throws
t_take<{O}>(k, v);
@ replace | C22 C03 C04 | {P}, U64 k [0..{D}], U64 j [0..{E}] | throws
t_replace<{O}>(k, j, v, w);
@ emplace_inner | C22 C04 C18 | {P}, U64 k [0..{D}], U64 j [0..{E}] | throws
t_emplace_inner<{O}>(k, j, v, w);
@ value_or | C22 C07 | {P}, U64 k [0..{D}] | throws
t_get_or<{O}>(k, v);
@ or_else | C22 C07 | {P}, U64 k [0..{D}], U64 j [0..{D}] | throws
t_or_else<{O}>(k, j, v, w);
@ flatten | C22 C11 | {P}, U64 k [0..{D}] | throws
t_flatten<{O}>(k, v);
@ pointer | C22 C06 | {P}, U64 k [0..{D}] | throws
t_ptr<{O}>(k, v);
@ eq | C22 C09 | {P}, U64 k [0..{D}], U64 j [0..{D}] | throws
t_eq<{O}>(k, j, v, w);
@ lt | C22 C09 | {P}, U64 k [0..{D}], U64 j [0..{D}] | throws
t_lt<{O}>(k, j, v, w);
'''
VAL = "inline bool same(const L& a, const L& b) { return a == b; }\n"
NON = "0x0..0x7fffffffffff"


def unit(name, decl, params, depth, setup="", same=VAL, classes=None, stds=("c++17",), drop=(), before="", tstds=("c++20", "c++23")):
    t = BODY.replace("{P}", params).replace("{D}", str(depth)).replace("{E}", str(depth - 1)).replace("{O}", "N%d" % depth)
    if setup:
        t = re.sub(r"(?m)^(t_)", setup + r" \1", t)
    if drop:
        t = "".join("@" + b for b in t.split("@")[1:] if b.split("|")[0].strip() not in drop)
    return Unit("nest_" + name, decl + "\n" + same + PRE, t, classes or {}, stds=stds, thorough_stds=tstds, before=before)


OPQ = "struct B { B(const B&); B(B&&); B& operator=(const B&); B& operator=(B&&); ~B(); U64 payload; }; using L = B;"
OPQT = "struct B { B(const B&) noexcept; B(B&&) noexcept; B& operator=(const B&) noexcept; B& operator=(B&&) noexcept; %s U64 payload; }; template<> struct opt::option_traits<B> { static constexpr std::uintmax_t max_level = %d; static std::uintmax_t get_level(const B*) noexcept; static void set_level(B*, std::uintmax_t) noexcept; }; using L = B;"
SAMEB = "inline bool same(const B& a, const B& b) { return a.payload == b.payload; }\n"
B8 = {"payload": 8, "dtor": True}
DEEP = ("assign", "move_assign", "swap", "replace", "or_else", "eq", "lt")
UNITS = [
    unit("int", "using L = int;", "int v, int w", 3, stds=("c++17", "c++20")),
    unit("int6", "using L = int;", "int v, int w", 6, drop=DEEP),
    unit("bool6", "using L = bool;", "bool v, bool w", 6, drop=DEEP),
    unit("ref6", "struct FE { int x; }; using L = FE&;", "FE& v, FE& w", 6, same="inline bool same(const FE& a, const FE& b) { return &a == &b; }\n", drop=DEEP),
    unit("bool", "using L = bool;", "bool v, bool w", 3),
    unit("ptr", "struct FE { int x; }; using L = FE*;", "FE& v0, FE& w0", 3, setup="FE* v = &v0; FE* w = &w0;"),
    unit("ref", "struct FE { int x; }; using L = FE&;", "FE& v, FE& w", 3, same="inline bool same(const FE& a, const FE& b) { return &a == &b; }\n", drop=("eq", "lt")),
    unit("sent", "using L = opt::sentinel<int, -1, -2, -3>;", "int v [0..0x7fffffff], int w [0..0x7fffffff]", 3,
         same="inline bool same(const L& a, int b) { return static_cast<const int&>(a) == b; }\n"),
    unit("sent2", "using L = opt::sentinel<int, -1, -2>;", "int v [0..0x7fffffff], int w [0..0x7fffffff]", 4,
         same="inline bool same(const L& a, int b) { return static_cast<const int&>(a) == b; }\n"),
    unit("enum", "enum class L { a, b, SENTINEL };", "int v0 [0..1], int w0 [0..1]", 3, setup="L v = static_cast<L>(v0); L w = static_cast<L>(w0);"),
    unit("opq", OPQ, "B& v, B& w", 2, same=SAMEB, drop=("eq", "lt"), classes={"B": B8}),
    unit("opqt", OPQT % ("~B();", 3), "B& v, B& w", 3, same=SAMEB, drop=("eq", "lt"), classes={"B": dict(B8, max_level=3)}),
    unit("opqt1", OPQT % ("", 1), "B& v, B& w", 3, same=SAMEB, drop=("eq", "lt"), classes={"B": dict(payload=8, max_level=1)}),
    unit("pair", "using L = std::pair<bool, int>;", "int v0, int w0", 3, setup="L v(true, v0); L w(false, w0);"),
]
