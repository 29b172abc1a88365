"""Wrapper types: opt::sentinel, opt::sentinel_f, opt::member, opt::enforce."""
from .must import Unit

PRE = r'''
#include <cstring>
template<class T> using tr = opt::option_traits<T>;
template<class T> struct Buf { alignas(8) u8 b[sizeof(T)]; T* p() { return reinterpret_cast<T*>(b); } const T* cp() const { return reinterpret_cast<const T*>(b); } };
enum class Ec { a, b, c, d };
struct FE { int x; };
struct Pt { int x; int y; constexpr Pt() : x(1), y(2) {} constexpr Pt(int a, int b) : x(a), y(b) {} };
template<class S, class T> void levels(T x, std::initializer_list<T> vals) {
    MUST(tr<S>::max_level == vals.size());
    MUST(sizeof(opt::option<S>) == sizeof(T));
    S s(x);
    U64 want = static_cast<U64>(-1); U64 i = 0;
    for (const T& v : vals) { if (x == v) { want = i; break; } ++i; }
    const U64 got = tr<S>::get_level(&s);
    if (want == static_cast<U64>(-1)) { MUST(got >= tr<S>::max_level); } else { MUST(got == want); }
    i = 0;
    for (const T& v : vals) { S t(x); tr<S>::set_level(&t, i); MUST(static_cast<const T&>(t) == v); MUST(tr<S>::get_level(&t) == i); ++i; }
}
// x is none of the reserved values: every way to store it keeps it
template<class S, class T> void stores(T x, T y) {
    using O = opt::option<S>;
    O a(x); MUST(a.has_value()); MUST(static_cast<T&>(*a) == x); MUST((*a).m == x);
    O b; MUST(!b.has_value()); b = y; MUST(b.has_value()); MUST((*b).m == y);
    b = a; MUST((*b).m == x); b = opt::none; MUST(!b.has_value()); b = S(y); MUST((*b).m == y);
    a.swap(b); MUST((*a).m == y && (*b).m == x);
    b.reset(); MUST(!b.has_value()); b.emplace(x); MUST((*b).m == x); a.swap(b);
    O c(std::in_place, y); MUST(c.has_value()); MUST((*c).m == y);
    const T& r = *c; MUST(&r == &(*c).m);
    T g = *c; MUST(g == y);
    *c = x; MUST(c.has_value()); MUST((*c).m == x);
    O d(static_cast<O&&>(c)); MUST((*d).m == x);
    opt::option<T> e(d); MUST(e.has_value()); MUST(*e == x);
    O f(e); MUST(f.has_value()); MUST((*f).m == x);
    MUST(static_cast<T>(d.value_or(y)) == x); d.reset(); MUST(static_cast<T>(d.value_or(y)) == y);
}
'''


def compl(vals, w, signed=True):
    m = (1 << w) - 1
    vs = sorted(v & m for v in vals)
    out, lo = [], 0
    for v in vs:
        if lo <= v - 1:
            out.append("0x%x..0x%x" % (lo, v - 1))
        lo = v + 1
    if lo <= m:
        out.append("0x%x..0x%x" % (lo, m))
    return ";".join(out)


SENT = [  # name, T, parameter type, width, values
    ("int1", "int", "int", 32, [-1]),
    ("int0", "int", "int", 32, [0]),
    ("int3", "int", "int", 32, [5, -1, 0]),
    ("int8", "int", "int", 32, [7, 3, -4, 0, 2147483647, -2147483647, 1, 100]),
    ("u8x2", "u8", "u8", 8, [255, 0]),
    ("u64x2", "U64", "U64", 64, [(1 << 64) - 1, 4]),
    ("long2", "long", "long", 64, [-1, -(1 << 40)]),
    ("short1", "short", "short", 16, [-7]),
    ("char2", "char", "char", 8, [0, 10]),
]


def lit(v):
    return "%dull" % v if v >= 1 << 63 else str(v)


def gen():
    t = ""
    for (n, ty, p, w, vals) in SENT:
        vs = ", ".join("static_cast<%s>(%s)" % (ty, lit(v)) for v in vals)
        t += "@ sent_levels_%s | C28 C18 C19 | %s x\nlevels<opt::sentinel<%s, %s>, %s>(x, {%s});\n" % (n, p, ty, vs, ty, vs)
        t += "@ sent_stores_%s | C28 C19 | %s x [%s], %s y [%s]\nstores<opt::sentinel<%s, %s>, %s>(x, y);\n" % (n, p, compl(vals, w), p, compl(vals, w), ty, vs, ty)
    return t


TEXT = gen() + r'''
@ sent_enum | C28 C18 C19 | int x [0..3]
levels<opt::sentinel<Ec, Ec::c, Ec::a>, Ec>(static_cast<Ec>(x), {Ec::c, Ec::a});
@ sent_enum_store | C28 C19 | int x [1;3]
stores<opt::sentinel<Ec, Ec::c, Ec::a>, Ec>(static_cast<Ec>(x), Ec::b);
@ sent_bool | C28 C19 | bool x
levels<opt::sentinel<bool, true>, bool>(x, {true}); opt::option<opt::sentinel<bool, true>> o(false); MUST(o.has_value()); o.reset(); MUST(!o.has_value());
@ sent_null | C28 C19 | FE& x
using S = opt::sentinel<FE*, nullptr>; MUST(tr<S>::max_level == 1); MUST(sizeof(opt::option<S>) == sizeof(FE*)); S s(&x); MUST(tr<S>::get_level(&s) != 0); S z(nullptr); MUST(tr<S>::get_level(&z) == 0); opt::option<S> o; MUST(!o.has_value()); o = &x; MUST(o.has_value()); FE* q = *o; MUST(q == &x); o.reset(); MUST(!o.has_value()); opt::option<S> p(&x); MUST(p.has_value());
@ sent_order_of_docs | C28 C22 | int x [0..0x7fffffff]
using S = opt::sentinel<int, -1, -2>; using O = opt::option<opt::option<S>>; O e; const int* raw = reinterpret_cast<const int*>(&e); MUST(!e.has_value()); MUST(*raw == -2); O i; i.emplace(); MUST(i.has_value() && !i->has_value()); MUST(*reinterpret_cast<const int*>(&i) == -1); O v; v.emplace(x); MUST(v.has_value() && v->has_value()); MUST(*reinterpret_cast<const int*>(&v) == x);
@ sent_fallback_flag | C28 C22 C23 C18 | int x [0..0x7fffffff]
using S = opt::sentinel<int, -1>; using O = opt::option<opt::option<S>>; MUST(sizeof(O) > sizeof(int)); O a; MUST(!a.has_value()); a.emplace(); MUST(a.has_value() && !a->has_value()); a->emplace(x); MUST((*a)->m == x); a->reset(); MUST(a.has_value() && !a->has_value()); a.reset(); MUST(!a.has_value());
@ sent_modify | C28 C19 C03 | int x [0..0x7ffffff0]
opt::option<opt::sentinel<int, -1>> a(x); (*a).m = 7; MUST(a.has_value() && *a == 7); int& r = *a; r = x; MUST(a.has_value() && *a == x); *a = 3; MUST(*a == 3); MUST(*a + 1 == 4);
@ sent_convert | C28 C08 | size_t n [0..0x7fffffff], long l [0..0x7fffffff]
opt::option<opt::sentinel<int, -1>> o; const int v = static_cast<int>(n); if (v != -1) { opt::option<opt::sentinel<int, -1>> a(n); MUST(a->m == v); o = n; MUST(o->m == v); o.emplace(n); MUST(o->m == v); } opt::sentinel<int, -1> s(l); MUST(s.m == static_cast<int>(l)); s = n; MUST(s.m == v); int c = s; MUST(c == v); opt::sentinel<int, -1> d, e{}; MUST(d.m == 0 && e.m == 0);
@ sent_compare | C28 C09 | int x [0..0x7fffffff], int y [0..0x7fffffff]
opt::option<opt::sentinel<int, -1>> a(x), n; opt::option<int> b(y); MUST((a == b) == (x == y)); MUST((a < b) == (x < y)); MUST((a == x)); MUST(!(n == x)); MUST(n == opt::none); MUST((n < a)); MUST((a != n)); MUST((y <= a) == (y <= x));

@ sf_levels | C28 C18 C19 | int x
struct Cmp { bool operator()(const int& a, int v) const noexcept { return a / 10 == v; } }; struct Set { void operator()(int& a, int v) const noexcept { a = v * 10 + 3; } }; using S = opt::sentinel_f<int, Cmp, Set, 4, 0, 20>; MUST(tr<S>::max_level == 3); for (U64 k = 0; k < 3; ++k) { S s(x); tr<S>::set_level(&s, k); MUST(tr<S>::get_level(&s) == k); MUST(s.m == (k == 0 ? 43 : k == 1 ? 3 : 203)); }
@ sf_member | C28 C18 C19 C20 | int x [0..0x7fffffff], int y
struct Cmp { bool operator()(const Pt& a, int v) const noexcept { return a.x == v; } }; struct Set { void operator()(Pt& a, int v) const noexcept { a.x = v; } }; using S = opt::sentinel_f<Pt, Cmp, Set, -1, -2, -3, -4>; using O = opt::option<S>; MUST(sizeof(O) == sizeof(Pt)); O a(x, y); MUST(a.has_value()); MUST((*a).m.x == x && (*a).m.y == y); const Pt& p = *a; MUST(p.y == y); O b; MUST(!b.has_value()); b = Pt(x, y); MUST(b.has_value() && (*b).m.y == y); b.reset(); MUST(!b.has_value()); b.emplace(x, 4); MUST((*b).m.y == 4); b = a; MUST((*b).m.x == x && (*b).m.y == y); using O4 = opt::option<opt::option<opt::option<O>>>; MUST(sizeof(O4) == sizeof(Pt)); O4 d; MUST(!d.has_value()); d.emplace(); MUST(d.has_value() && !d->has_value()); d->emplace(); MUST((*d).has_value() && !(*d)->has_value()); (*d)->emplace(); MUST((**d).has_value() && !(**d)->has_value()); (**d)->emplace(x, y); MUST((***d).has_value()); MUST((****d).m.y == y); (**d)->reset(); MUST((**d).has_value() && !(**d)->has_value());
@ sf_classify | C28 C19 | int x
struct Cmp { bool operator()(const Pt& a, int v) const noexcept { return a.x == v; } }; struct Set { void operator()(Pt& a, int v) const noexcept { a.x = v; } }; using S = opt::sentinel_f<Pt, Cmp, Set, -1, 9, -3>; S s(x, 5); const U64 l = tr<S>::get_level(&s); if (x == -1) { MUST(l == 0); } else if (x == 9) { MUST(l == 1); } else if (x == -3) { MUST(l == 2); } else { MUST(l >= 3); }
@ sf_nan | C28 C19 |
struct Cmp { bool operator()(const float& a, int) const noexcept { return a != a; } }; struct Set { void operator()(float& a, int) const noexcept { u32 w = 0x7fc00000u; std::memcpy(&a, &w, 4); } }; using S = opt::sentinel_f<float, Cmp, Set, 0>; using O = opt::option<S>; MUST(sizeof(O) == sizeof(float)); MUST(tr<S>::max_level == 1);

@ member_levels | C28 C18 C21 C20 | U64 k [0..253], int y
struct M { int a; bool b; int c; M(int q) : a(q), b(true), c(q) {} }; using W = opt::member<M, &M::b>; MUST(tr<W>::max_level == tr<bool>::max_level); MUST(sizeof(opt::option<W>) == sizeof(M)); W w(y); MUST(tr<W>::get_level(&w) >= tr<W>::max_level); tr<W>::set_level(&w, k); MUST(tr<W>::get_level(&w) == k); MUST(tr<bool>::get_level(&w.m.b) == k); MUST(w.m.a == y && w.m.c == y);
@ member_store | C28 C19 | int y, bool t
struct M { int a; bool b; int c; M(int q, bool z) : a(q), b(z), c(q) {} }; using O = opt::option<opt::member<M, &M::b>>; O o; MUST(!o.has_value()); o = M(y, t); MUST(o.has_value()); MUST((*o).m.a == y && (*o).m.b == t && (*o).m.c == y); O p(y, t); MUST(p.has_value()); const M& r = *p; MUST(r.a == y && r.b == t); p.reset(); MUST(!p.has_value()); p = o; MUST((*p).m.c == y); O q(M(y, t)); MUST(q.has_value()); opt::option<O> n(q); MUST(n->has_value()); n->reset(); MUST(n.has_value() && !n->has_value()); MUST(sizeof(n) == sizeof(M)); opt::option<M> z(q); MUST(z.has_value() && z->c == y);
@ member_ptr | C28 C19 | FE& e, int y
struct M { FE* p; int c; M(FE* q, int z) : p(q), c(z) {} }; using O = opt::option<opt::member<M, &M::p>>; O o; MUST(!o.has_value()); o.emplace(&e, y); MUST(o.has_value()); MUST((*o).m.p == &e && (*o).m.c == y); (*o).m.p = nullptr; MUST(o.has_value()); O c(o); MUST(c.has_value() && (*c).m.p == nullptr); o.reset(); MUST(!o.has_value()); MUST((*c).m.c == y);
@ member_nested_option | C28 C22 C18 | int y
struct M { int c; opt::option<bool> b; M(int z) : c(z), b(opt::none) {} }; using W = opt::member<M, &M::b>; using O = opt::option<W>; MUST(tr<W>::max_level == tr<bool>::max_level - 1); O o; MUST(!o.has_value()); o.emplace(y); MUST(o.has_value()); MUST(!(*o).m.b.has_value()); MUST((*o).m.c == y); (*o).m.b = true; MUST(o.has_value() && *(*o).m.b); o.reset(); MUST(!o.has_value());
@ member_enum | C28 C19 | int x [0..1], int y
enum class L { a, b, SENTINEL }; struct M { int c; L l; M(int z, L q) : c(z), l(q) {} }; using O = opt::option<opt::member<M, &M::l>>; MUST(sizeof(O) == sizeof(M)); O o(y, static_cast<L>(x)); MUST(o.has_value()); MUST((*o).m.c == y && (*o).m.l == static_cast<L>(x)); o.reset(); MUST(!o.has_value()); MUST(o == opt::none);

@ enforce_ptr | C28 C19 C18 | FE& e
using W = opt::enforce<FE*>; using O = opt::option<W>; MUST(tr<W>::max_level == tr<FE*>::max_level); MUST(sizeof(O) == sizeof(FE*)); O o; MUST(!o.has_value()); o = &e; MUST(o.has_value()); FE* p = *o; MUST(p == &e); o = nullptr; MUST(o.has_value()); MUST((*o).m == nullptr); O q(o); MUST(q.has_value()); q.reset(); MUST(!q.has_value()); MUST(o.has_value());
@ enforce_levels | C28 C18 | U64 k [0..511], FE& e
using W = opt::enforce<FE*>; W w(&e); MUST(tr<W>::get_level(&w) >= tr<W>::max_level); tr<W>::set_level(&w, k); MUST(tr<W>::get_level(&w) == k); MUST(tr<FE*>::get_level(&w.m) == k);
@ enforce_bool | C28 C19 C18 | bool b
using O = opt::option<opt::enforce<bool>>; O o(b); MUST(o.has_value()); bool c = *o; MUST(c == b); o.reset(); MUST(!o.has_value()); o = b; MUST(o.has_value()); MUST((*o).m == b); opt::option<bool> z(o); MUST(z.has_value() && *z == b); opt::option<O> n; MUST(!n.has_value()); n.emplace(); MUST(n.has_value() && !n->has_value()); n->emplace(b); MUST((**n).m == b);
@ enforce_pair | C28 C19 C21 | int y, bool b
using P = std::pair<int, bool>; using O = opt::option<opt::enforce<P>>; MUST(sizeof(O) == sizeof(P)); O o(y, b); MUST(o.has_value()); MUST((*o).m.first == y && (*o).m.second == b); o.reset(); MUST(!o.has_value()); o = P(y, b); MUST(o.has_value()); P& p = *o; MUST(p.first == y && p.second == b); p.first = 3; MUST((*o).m.first == 3);
'''

# the wrappers add nothing: one operation on the wrapper is one operation on the wrapped object
OPQ = """
struct A; struct Cmp { template<class T> bool operator()(const T& a, int v) const noexcept { return a.tag == v; } }; struct Set { template<class T> void operator()(T& a, int v) const noexcept { a.tag = v; } };
struct B { B(); B(const B&); B(B&&); B& operator=(const B&); B& operator=(B&&); ~B(); B(A&, int); B& operator=(A&); U64 payload; };
struct H { int tag; bool on; B b; H(int t, const B& x) : tag(t), on(true), b(x) {} H(int t, B&& x) : tag(t), on(true), b(static_cast<B&&>(x)) {} };
using W = opt::sentinel_f<H, Cmp, Set, -1, -2>; using M = opt::member<H, &H::on>; using E = opt::enforce<opt::option<B>>;
struct P { bool f; B b; };
template<class T> void one(B& b) {
    RESET; T w(5, b); COPIES(1); MOVES(0); ASSIGNS(0); DTORS(0);
    RESET; T v(5, static_cast<B&&>(b)); COPIES(0); MOVES(1); ASSIGNS(0); DTORS(0);
    RESET; T u(w); COPIES(1); MOVES(0); ASSIGNS(0);
    RESET; T t(static_cast<T&&>(u)); COPIES(0); MOVES(1); ASSIGNS(0);
    RESET; t = w; COPIES(1); MOVES(0); ASSIGNS(1);
    RESET; t = static_cast<T&&>(w); COPIES(0); MOVES(1); ASSIGNS(1);
    RESET; H& r = t; const T& ct = t; const H& cr = ct; H&& rr = static_cast<T&&>(t); const H&& crr = static_cast<const T&&>(t); NOEV;
    MUST(&r == &t.m && &cr == &t.m && &rr == &t.m && &crr == &t.m);
    RESET; T q(r); COPIES(1); MOVES(0); RESET; T p(static_cast<H&&>(r)); COPIES(0); MOVES(1); RESET; q = r; COPIES(1); ASSIGNS(1); RESET; q = static_cast<H&&>(r); MOVES(1); COPIES(0); ASSIGNS(1);
    RESET; H h = static_cast<T&&>(q); MOVES(1); COPIES(0); RESET; H g(t); COPIES(1); MOVES(0); RESET; H i(ct); COPIES(1); MOVES(0);
}
template<class T> void in_option(B& b) {
    using O = opt::option<T>;
    MUST(sizeof(O) == sizeof(H));
    RESET; O w(5, b); COPIES(1); MOVES(0); ASSIGNS(0); DTORS(0); MUST(w.has_value());
    H h(4, b); RESET; O v(h); COPIES(1); MOVES(0); RESET; O u(static_cast<H&&>(h)); COPIES(0); MOVES(1);
    RESET; v = h; COPIES(1); ASSIGNS(1); RESET; v = static_cast<H&&>(h); MOVES(1); COPIES(0); ASSIGNS(1);
    RESET; v.reset(); DTORS(1); MUST(!v.has_value()); RESET; v = h; COPIES(1); ASSIGNS(0); MUST(v.has_value()); MUST(v->m.tag == 4);
    RESET; v = w; COPIES(1); ASSIGNS(1); MUST(v->m.tag == 5);
    w.reset(); RESET; v = w; COPIES(0); ASSIGNS(0); DTORS(1); MUST(!v.has_value()); RESET; O x(w); MUST(!x.has_value()); NOEV;
    RESET; v.emplace(3, b); COPIES(1); MOVES(0); ASSIGNS(0); DTORS(0); MUST(v->m.tag == 3);
    RESET; v.emplace(3, static_cast<B&&>(b)); COPIES(0); MOVES(1); ASSIGNS(0); DTORS(1);
}
"""
TEXT2 = """
@ w_sent | C28 | B& b | throws
one<W>(b);
@ w_member | C28 | B& b | throws
one<M>(b);
@ w_sent_option | C28 C04 C09 | B& b | throws
in_option<W>(b);
@ w_member_option | C28 C04 | B& b | throws
in_option<M>(b);
@ w_aggregate | C28 | B& b | throws
using T = opt::member<P, &P::f>; RESET; T w(true, b); COPIES(1); MOVES(0); MUST(w.m.f); RESET; T v{P{false, static_cast<B&&>(b)}}; COPIES(0); T u{}; MUST(!u.m.f); opt::option<T> o(true, b); MUST(o.has_value() && o->m.f); opt::option<T> e; MUST(!e.has_value()); e = o; MUST(e->m.f); T z; MUST(!z.m.f);
@ w_nested | C28 C22 | B& b | throws
opt::option<opt::option<W>> o; MUST(!o.has_value()); o.emplace(); MUST(o.has_value() && !o->has_value()); RESET; o->emplace(1, b); COPIES(1); MUST((*o)->m.tag == 1); RESET; o->reset(); DTORS(1); MUST(o.has_value() && !o->has_value()); o->emplace(1, b); RESET; o.reset(); DTORS(1); MUST(!o.has_value());
"""
UNITS = [Unit("wrap", PRE, TEXT, stds=("c++17", "c++20")),
         Unit("wrapo", OPQ, TEXT2, classes={"B": {"payload": 8, "dtor": True}}, stds=("c++17",), thorough_stds=("c++20", "c++23"))]
