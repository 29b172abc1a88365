"""Built-in representations: every level can be written and read back in place, nothing else is written, the reserved
representations are the documented ones, and all other values of the type are engaged."""
from .must import Unit

PRE = r'''
#include <array>
#include <complex>
#include <cstring>
#include <functional>
#include <memory>
#include <string_view>
struct E { int x; };
struct Poly { virtual ~Poly(); int x; };
struct Poly2 { virtual void f(); U64 y; };
struct PolyD final : Poly2 { int z; void f() override; };
struct Mem { int a; int b; void f(); virtual void g(); };
struct Pad8 { int a; u8 PADDING; u8 tail; };
struct Pad16 { u16 PADDING; int a; };
enum class ES { a, SENTINEL = 77, b = 1000 };
enum class ESmin : int { a = 5, SENTINEL = -2147483647 - 1 };
enum class ESu8 : u8 { SENTINEL = 0, a, b };
enum class EStart : u8 { a, b, SENTINEL_START = 10 };
enum class EStart32 : u32 { a, b, SENTINEL_START = 4000000000u };
enum class EStartNeg : int { a = -3, b, SENTINEL_START = 2147483600 };
enum class EStartEnd : short { a = -5, SENTINEL_START = -3, SENTINEL_END = 4, b = 9 };
enum class EStartEnd64 : U64 { a, SENTINEL_START = 0x100000000ull, SENTINEL_END = 0x1000000ffull };
enum class R8 : u8 { a, b, c };
enum class R8f : u8 { a = 1, b = 2, c = 4, d = 32 };
enum class R16 : u16 { a = 3, b = 600 };
enum class R32 : u32 { a, b = 99 };
enum class R64 : U64 { a = 1023 };
enum class R8full : u8 { a, z = 255 };
enum class R32none : u32 {};
enum class R32big : u32 { big = 5000 };
enum class Rsigned : int { a, b };
template<class T> struct Buf { alignas(alignof(T) > 8 ? alignof(T) : 8) u8 b[sizeof(T)]; T* p() { return reinterpret_cast<T*>(b); } const T* cp() const { return reinterpret_cast<const T*>(b); } };
template<class T> void fill(Buf<T>& m) { for (unsigned i = 0; i < sizeof(T); ++i) m.b[i] = static_cast<u8>(0xA1 + i); }
template<class T> bool rest(const Buf<T>& m, unsigned lo, unsigned n) { for (unsigned i = 0; i < sizeof(T); ++i) if ((i < lo || i >= lo + n) && m.b[i] != static_cast<u8>(0xA1 + i)) return false; return true; }
template<class T> using tr = opt::option_traits<T>;
// the representation of level k is the number base + k in the W wide word at Off, nothing else is written
template<class T, class W, unsigned Off> void place(W base, U64 max, U64 k) {
    MUST(tr<T>::max_level == max);
    Buf<T> m; fill(m);
    tr<T>::set_level(m.p(), k);
    MUST(tr<T>::get_level(m.cp()) == k);
    W w; std::memcpy(&w, m.b + Off, sizeof(W));
    MUST(w == static_cast<W>(base + k));
    MUST(rest(m, Off, sizeof(W)));
    Buf<T> u; tr<T>::set_level(u.p(), k); MUST(tr<T>::get_level(u.cp()) == k);
    MUST(tr<T>::get_level(u.cp()) < tr<T>::max_level);
}
// any other word is an engaged value
template<class T, class W, unsigned Off> void ordinary(W w) {
    Buf<T> u; std::memcpy(u.b + Off, &w, sizeof(W));
    MUST(tr<T>::get_level(u.cp()) >= tr<T>::max_level);
}
template<class T, class W, unsigned Off> void ordinary_option(W w) {
    Buf<T> u; fill(u); std::memcpy(u.b + Off, &w, sizeof(W));
    const T& v = *u.cp();
    auto same = [&](const opt::option<T>& o) { return std::memcmp(reinterpret_cast<const u8*>(&*o) + Off, &w, sizeof(W)) == 0; };
    opt::option<T> a(v); MUST(a.has_value());
    opt::option<T> b; MUST(!b.has_value()); b = v; MUST(b.has_value());
    opt::option<T> c(a); MUST(c.has_value());
    b.reset(); MUST(!b.has_value()); b = a; MUST(b.has_value());
    b.reset(); b.emplace(v); MUST(b.has_value());
    opt::option<T> d(static_cast<opt::option<T>&&>(a)); MUST(d.has_value());
    opt::option<opt::option<T>> n(d); MUST(n.has_value()); MUST(n->has_value());
    W x; std::memcpy(&x, reinterpret_cast<const u8*>(&n->get()) + Off, sizeof(W)); MUST(x == w);
    std::memcpy(&x, reinterpret_cast<const u8*>(&b.get()) + Off, sizeof(W)); MUST(x == w);
}
// an option as the contained type: all of its marks are apart from each other and from its own states
template<class O, class V> void option_levels(U64 k, V v) {
    Buf<O> m; tr<O>::set_level(m.p(), k); MUST(tr<O>::get_level(m.cp()) == k);
    const O e; MUST(tr<O>::get_level(&e) >= tr<O>::max_level); MUST(!e.has_value());
    const O g(v); MUST(tr<O>::get_level(&g) >= tr<O>::max_level); MUST(g.has_value());
}
// composites: the level lives in the member at Off (of type M) by that member's own rule
template<class T, class M, unsigned Off> void delegate(U64 k) {
    MUST(tr<T>::max_level == tr<M>::max_level);
    Buf<T> m; fill(m);
    tr<T>::set_level(m.p(), k);
    MUST(tr<T>::get_level(m.cp()) == k);
    MUST(tr<M>::get_level(reinterpret_cast<const M*>(m.b + Off)) == k);
    MUST(rest(m, Off, sizeof(M)));
    Buf<T> u; tr<M>::set_level(reinterpret_cast<M*>(u.b + Off), k);
    MUST(tr<T>::get_level(u.cp()) == k);
}
template<class T, class M, unsigned Off, class W> void delegate_ordinary(W w) {
    Buf<T> u; std::memcpy(u.b + Off, &w, sizeof(W));
    MUST(tr<T>::get_level(u.cp()) >= tr<T>::max_level);
}
'''

# name, type, word, offset, base, max, ordinary ranges
NONCAN = 0xF8E1B1825D5D6C67
M64 = (1 << 64) - 1


def word(w):
    return {"u8": 8, "u16": 16, "u32": 32, "U64": 64}[w]


# representation table (docs/builtin_traits.md)
T = [
    ("bool", "bool", "u8", 0, 2, 254, "0..1"),
    ("refwrap", "std::reference_wrapper<E>", "U64", 0, 0, 256, None),
    ("refwrap_fn", "std::reference_wrapper<void(int)>", "U64", 0, 0, 256, None),
    ("ref", "opt::option<E&>", "U64", 0, 1, 256, None),
    ("ptr", "E*", "U64", 0, NONCAN, 512, None),
    ("ptr_const", "const char*", "U64", 0, NONCAN, 512, None),
    ("ptr_void", "void*", "U64", 0, NONCAN, 512, None),
    ("ptr_fn", "void(*)(int)", "U64", 0, NONCAN, 512, None),
    ("dbl", "double", "U64", 0, 0xFFF6C79F55B0898F, 256, None),
    ("flt", "float", "u32", 0, 0xFFBF69AF, 256, None),
    ("cplx", "std::complex<double>", "U64", 0, 0xFFF6C79F55B0898F, 256, None),
    ("cplxf", "std::complex<float>", "u32", 0, 0xFFBF69AF, 256, None),
    ("poly", "Poly", "U64", 0, M64 - 89151, 255, None),
    ("polyd", "PolyD", "U64", 0, M64 - 89151, 255, None),
    ("uptr", "std::unique_ptr<E>", "U64", 0, M64 - 46508, 255, None),
    ("uptr_arr", "std::unique_ptr<E[]>", "U64", 0, M64 - 46508, 255, None),
    ("mptr", "int Mem::*", "U64", 0, 0xFFFFFFFFD3B2F9B2, 255, None),
    ("mfptr", "void (Mem::*)()", "U64", 0, 0xFFFFFFFFD3B2F9B2, 255, None),
    ("pad8", "Pad8", "u8", 4, 1, 255, None),
    ("pad16", "Pad16", "u16", 0, 1, 65535, None),
    ("enum_sent", "ES", "u32", 0, 77, 1, None),
    ("enum_sentmin", "ESmin", "u32", 0, 0x80000000, 1, None),
    ("enum_sentu8", "ESu8", "u8", 0, 0, 1, None),
    ("enum_start", "EStart", "u8", 0, 10, 246, None),
    ("enum_start32", "EStart32", "u32", 0, 4000000000, 294967296, None),
    ("enum_startneg", "EStartNeg", "u32", 0, 2147483600, 48, None),
    ("enum_startend", "EStartEnd", "u16", 0, 0xFFFD, 8, None),
    ("enum_startend64", "EStartEnd64", "U64", 0, 0x100000000, 256, None),
    ("enum_r8", "R8", "u8", 0, 4, 252, None),
    ("enum_r8f", "R8f", "u8", 0, 64, 192, None),
    ("enum_r16", "R16", "u16", 0, 1024, 0, None),
    ("enum_r32", "R32", "u32", 0, 128, 896, None),
]


def ranges(base, n, w):
    """complement of [base, base+n) in w bits"""
    m = (1 << w) - 1
    lo, hi = base & m, (base + n - 1) & m
    if lo <= hi:
        r = [(0, lo - 1)] if lo else []
        if hi < m:
            r.append((hi + 1, m))
        return ";".join("0x%x..0x%x" % x for x in r)
    return "0x%x..0x%x" % (hi + 1, lo - 1)


# options as contained types: name, type, value, number of marks
OPTS = [
    ("int", "opt::option<int>", "int", 254), ("int2", "opt::option<opt::option<int>>", "int", 253), ("int3", "opt::option<opt::option<opt::option<int>>>", "int", 252),
    ("bool", "opt::option<bool>", "u8", 253), ("bool2", "opt::option<opt::option<bool>>", "u8", 252), ("long", "opt::option<U64>", "U64", 254),
    ("cint", "opt::option<const int>", "int", 254), ("cint2", "opt::option<const opt::option<int>>", "int", 253),
]
NO_OPTION = ("poly", "polyd", "uptr", "uptr_arr", "ref", "refwrap_fn")


def gen():
    out = ""
    for (n, t, w, off, base, mx, rg) in T:
        if mx == 0:
            continue
        rg = rg or ranges(base, mx, word(w))
        out += "@ place_%s | C18 C20 %s | U64 k [0..%d]\nplace<%s, %s, %d>(static_cast<%s>(0x%xull), %d, k);\n" % (
            n, "C21" if n.startswith(("cplx", "pad")) else "", mx - 1, t, w, off, w, base, mx)
        out += "@ ordinary_%s | C19 C20 | %s w [%s]\nordinary<%s, %s, %d>(w);\n" % (n, w, rg, t, w, off)
        if n not in NO_OPTION:
            out += "@ stored_%s | C19 | %s w [%s] | global\nordinary_option<%s, %s, %d>(w);\n" % (n, w, rg, t, w, off)
    for (n, t, v, mx) in OPTS:
        out += "@ option_%s | C18 C19 C22 | U64 k [0..%d], %s v%s\nMUST(tr<%s>::max_level == %d); option_levels<%s>(k, %s);\n" % (n, mx - 1, v, " [0..1]" if v == "u8" else "", t, mx, t, "v != 0" if v == "u8" else "v")
    # several words
    for (n, c) in (("sv", "char"), ("svw", "wchar_t")):
        t = "std::basic_string_view<%s>" % c
        out += "@ place_%s | C18 C20 | U64 k [0..254]\nusing T = %s; MUST(tr<T>::max_level == 255); Buf<T> m; tr<T>::set_level(m.p(), k); MUST(tr<T>::get_level(m.cp()) == k); MUST(reinterpret_cast<std::uintptr_t>(m.cp()->data()) == static_cast<std::uintptr_t>(-1) - 32185 + k);\n" % (n, t)
        out += "@ ordinary_%s | C19 C20 | U64 w [%s], U64 len\nusing T = %s; T v(reinterpret_cast<const %s*>(w), len); MUST(tr<T>::get_level(&v) >= tr<T>::max_level);\n" % (n, ranges(M64 - 32185, 255, 64), t, c)
        out += "@ stored_%s | C19 | U64 w [%s], U64 len | global\nusing T = %s; T v(reinterpret_cast<const %s*>(w), len); opt::option<T> a(v), b; MUST(a.has_value()); MUST(!b.has_value()); b = a; MUST(b.has_value()); MUST(b->data() == v.data()); MUST(b->size() == len); opt::option<T> c(b); MUST(c.has_value()); opt::option<opt::option<T>> d(c); MUST(d.has_value() && d->has_value()); d->reset(); MUST(d.has_value() && !d->has_value()); d.reset(); MUST(!d.has_value());\n" % (n, ranges(M64 - 32185, 255, 64), t, c)
    return out


MORE = r'''
@ enum_without_spare | C18 C20 |
MUST(tr<R64>::max_level == 0); MUST(tr<R8full>::max_level == 0); MUST(tr<R32none>::max_level == 0); MUST(tr<R32big>::max_level == 0); MUST(tr<Rsigned>::max_level == 0); MUST(tr<R16>::max_level == 0);
@ plain_types_have_none | C18 C20 |
MUST(tr<int>::max_level == 0); MUST(tr<U64>::max_level == 0); MUST(tr<u8>::max_level == 0); MUST(tr<char>::max_level == 0); MUST(tr<long double>::max_level == 0); MUST(tr<std::nullptr_t>::max_level == 0); MUST((tr<std::tuple<>>::max_level) == 0); MUST((tr<std::array<bool, 0>>::max_level) == 0); MUST((tr<std::pair<int, long>>::max_level) == 0); MUST((tr<std::tuple<int, char>>::max_level) == 0);
@ live_pointer | C19 C20 | E& x
E* p = &x; MUST(tr<E*>::get_level(&p) >= tr<E*>::max_level); E* q = nullptr; MUST(tr<E*>::get_level(&q) >= tr<E*>::max_level); opt::option<E*> a(p), b(nullptr), c(static_cast<E*>(nullptr)); MUST(a.has_value()); MUST(b.has_value()); MUST(c.has_value()); MUST(*a == &x); MUST(*b == nullptr); a = nullptr; MUST(a.has_value()); MUST(*a == nullptr);
@ live_reference_wrapper | C19 C20 | E& x
std::reference_wrapper<E> p(x); using T = std::reference_wrapper<E>; MUST(tr<T>::get_level(&p) >= tr<T>::max_level); opt::option<T> a(p); MUST(a.has_value()); MUST(&a->get() == &x);
@ live_unique_ptr | C19 C20 |
std::unique_ptr<E> p; using T = std::unique_ptr<E>; MUST(tr<T>::get_level(&p) >= tr<T>::max_level); opt::option<T> a(std::move(p)); MUST(a.has_value()); MUST(a->get() == nullptr); opt::option<T> b(nullptr); MUST(b.has_value()); MUST(b->get() == nullptr); opt::option<T> c; MUST(!c.has_value()); c = std::move(b); MUST(c.has_value()); MUST(c->get() == nullptr); MUST(b.has_value());
@ live_unique_ptr_owning | C19 C01 C20 | | alloc
using T = std::unique_ptr<E>; E* raw = new E{3}; { opt::option<T> a(T{raw}); MUST(a.has_value()); MUST(a->get() == raw); opt::option<T> b(std::move(a)); MUST(b.has_value()); MUST(b->get() == raw); MUST(a.has_value()); a = std::move(b); MUST(a->get() == raw); opt::option<opt::option<T>> n(std::move(a)); MUST(n->get().get() == raw); n->reset(); MUST(n.has_value()); MUST(!n->has_value()); }
@ live_unique_ptr_array | C19 C01 C20 | | alloc
using T = std::unique_ptr<E[]>; E* raw = new E[2]; { opt::option<T> a(T{raw}); MUST(a.has_value()); opt::option<T> b; MUST(!b.has_value()); b = std::move(a); MUST(b.has_value()); MUST(b->get() == raw); b.reset(); MUST(!b.has_value()); }
@ live_polymorphic | C19 C20 |
Poly2 x; MUST(tr<Poly2>::get_level(&x) >= tr<Poly2>::max_level); PolyD y; MUST(tr<PolyD>::get_level(&y) >= tr<PolyD>::max_level); opt::option<Poly2> a; MUST(!a.has_value()); a.emplace(); MUST(a.has_value()); a.reset(); MUST(!a.has_value()); opt::option<PolyD> d(std::in_place); MUST(d.has_value()); opt::option<PolyD> e(d); MUST(e.has_value()); a = *e; MUST(a.has_value());
@ live_member_pointers | C19 C20 |
int Mem::* d = &Mem::a; int Mem::* d2 = &Mem::b; int Mem::* n = nullptr; void (Mem::*f)() = &Mem::f; void (Mem::*g)() = &Mem::g; void (Mem::*z)() = nullptr; using D = int Mem::*; using F = void (Mem::*)(); MUST(tr<D>::get_level(&d) >= tr<D>::max_level); MUST(tr<D>::get_level(&d2) >= tr<D>::max_level); MUST(tr<D>::get_level(&n) >= tr<D>::max_level); MUST(tr<F>::get_level(&f) >= tr<F>::max_level); MUST(tr<F>::get_level(&g) >= tr<F>::max_level); MUST(tr<F>::get_level(&z) >= tr<F>::max_level); opt::option<D> a(n), b(d), c; MUST(a.has_value() && b.has_value() && !c.has_value()); c = d2; MUST(c.has_value() && *c == d2); opt::option<F> h(z), i(f), j; MUST(h.has_value() && i.has_value() && !j.has_value()); j = g; MUST(j.has_value());
@ live_member_function_words | C19 C20 | U64 w [0..0x7fffffffffff], U64 adj
using F = void (Mem::*)(); Buf<F> u; std::memcpy(u.b, &w, 8); std::memcpy(u.b + 8, &adj, 8); MUST(tr<F>::get_level(u.cp()) >= tr<F>::max_level); opt::option<F> o(*u.cp()); MUST(o.has_value()); opt::option<F> e; e = o; MUST(e.has_value());
@ float_classes | C19 C20 | U64 w [0..0x7fffffffffffffff;0x8000000000000000..0xfff0000000000000;0xfff8000000000000..0xffffffffffffffff]
Buf<double> u; std::memcpy(u.b, &w, 8); MUST(tr<double>::get_level(u.cp()) >= tr<double>::max_level);
@ float_classes32 | C19 C20 | u32 w [0..0x7fffffff;0x80000000..0xff800000;0xffc00000..0xffffffff]
Buf<float> u; std::memcpy(u.b, &w, 4); MUST(tr<float>::get_level(u.cp()) >= tr<float>::max_level);
@ canonical_addresses | C19 C20 | U64 w [0..0x00007fffffffffff;0xffff800000000000..0xffffffffffffffff]
Buf<E*> u; std::memcpy(u.b, &w, 8); MUST(tr<E*>::get_level(u.cp()) >= tr<E*>::max_level);
@ padding_zero | C19 C21 |
Pad8 x{}; x.a = 4; x.tail = 9; MUST(tr<Pad8>::get_level(&x) >= tr<Pad8>::max_level); opt::option<Pad8> a(x), b; MUST(a.has_value()); MUST(!b.has_value()); b = a; MUST(b.has_value() && b->a == 4 && b->tail == 9 && b->PADDING == 0); opt::option<opt::option<Pad8>> n; MUST(!n.has_value()); n = opt::option<Pad8>{}; MUST(n.has_value() && !n->has_value());
'''

COMP_PRE = r'''
struct TL { int a; bool b; E* c; template<std::size_t I> auto& get() { if constexpr (I == 0) return a; else if constexpr (I == 1) return b; else return c; } template<std::size_t I> const auto& get() const { if constexpr (I == 0) return a; else if constexpr (I == 1) return b; else return c; } };
struct TLf { bool a; int b; };
template<std::size_t I> auto& get(TLf& x) { if constexpr (I == 0) return x.a; else return x.b; }
template<std::size_t I> const auto& get(const TLf& x) { if constexpr (I == 0) return x.a; else return x.b; }
namespace std { template<> struct tuple_size<TL> : integral_constant<size_t, 3> {}; template<> struct tuple_element<0, TL> { using type = int; }; template<> struct tuple_element<1, TL> { using type = bool; }; template<> struct tuple_element<2, TL> { using type = E*; };
 template<> struct tuple_size<TLf> : integral_constant<size_t, 2> {}; template<> struct tuple_element<0, TLf> { using type = bool; }; template<> struct tuple_element<1, TLf> { using type = int; }; }
struct Node { int id; E* next; bool on; };
using NodeNext = opt::member<Node, &Node::next>; using NodeOn = opt::member<Node, &Node::on>;
template<class T> const Node& mref(const Buf<T>& m) { return static_cast<const Node&>(*m.cp()); }
// offset of a member without relying on the layout of the library's tuple
template<class T, class M> unsigned off(const Buf<T>& m, const M& x) { return static_cast<unsigned>(reinterpret_cast<const u8*>(&x) - m.b); }
template<class T, std::size_t I> void deleg_get(U64 k) {
    using M = std::tuple_element_t<I, T>;
    MUST(tr<T>::max_level == tr<M>::max_level);
    Buf<T> m; fill(m); using std::get;
    const unsigned o = off(m, get<I>(*m.cp()));
    tr<T>::set_level(m.p(), k);
    MUST(tr<T>::get_level(m.cp()) == k);
    MUST(tr<M>::get_level(&get<I>(*m.cp())) == k);
    MUST(rest(m, o, sizeof(M)));
    Buf<T> u; tr<M>::set_level(&get<I>(*u.p()), k); MUST(tr<T>::get_level(u.cp()) == k);
}
template<class T, std::size_t I, class W> void deleg_live(W w) {
    using M = std::tuple_element_t<I, T>; using std::get;
    Buf<T> u; std::memcpy(u.b + off(u, get<I>(*u.cp())), &w, sizeof(W));
    MUST(tr<T>::get_level(u.cp()) >= tr<T>::max_level);
}
'''
COMP = [  # type, index, member levels, word, ordinary ranges
    ("pair_bi", "std::pair<bool, int>", 0, 254, "u8", "0..1"),
    ("pair_ib", "std::pair<int, bool>", 1, 254, "u8", "0..1"),
    ("pair_bp", "std::pair<bool, E*>", 1, 512, "U64", ranges(NONCAN, 512, 64)),
    ("pair_pb", "std::pair<E*, bool>", 0, 512, "U64", ranges(NONCAN, 512, 64)),
    ("pair_fd", "std::pair<R32, double>", 0, 896, "u32", ranges(128, 896, 32)),
    ("pair_cb", "std::pair<const bool, bool>", 1, 254, "u8", "0..1"),
    ("tuple_ibp", "std::tuple<int, bool, E*>", 2, 512, "U64", ranges(NONCAN, 512, 64)),
    ("tuple_pib", "std::tuple<E*, int, bool>", 0, 512, "U64", ranges(NONCAN, 512, 64)),
    ("tuple_bbi", "std::tuple<bool, bool, int>", 0, 254, "u8", "0..1"),
    ("tuple_isb", "std::tuple<int, ES, bool>", 2, 254, "u8", "0..1"),
    ("tuple_dpd", "std::tuple<double, E*, double>", 1, 512, "U64", ranges(NONCAN, 512, 64)),
    ("tuple_one", "std::tuple<bool>", 0, 254, "u8", "0..1"),
    ("tuple_nest", "std::tuple<int, std::pair<int, E*>, bool>", 1, 512, None, None),
    ("tuple_opt", "std::tuple<int, opt::option<E*>, bool>", 1, 511, None, None),
    ("array_b", "std::array<bool, 3>", 0, 254, "u8", "0..1"),
    ("array_p", "std::array<E*, 2>", 0, 512, "U64", ranges(NONCAN, 512, 64)),
    ("array_pair", "std::array<std::pair<int, bool>, 2>", 0, 254, None, None),
    ("tuplelike", "TL", 2, 512, "U64", ranges(NONCAN, 512, 64)),
    ("tuplelike_adl", "TLf", 0, 254, "u8", "0..1"),
]


def gen_comp():
    out = ""
    for (n, t, i, mx, w, rg) in COMP:
        if t == "TL":
            out += "@ comp_%s | C18 C21 | U64 k [0..%d]\ndelegate<TL, E*, 8>(k);\n@ comp_live_%s | C19 C21 | %s w [%s]\ndelegate_ordinary<TL, E*, 8>(w);\n" % (n, mx - 1, n, w, rg)
            continue
        out += "@ comp_%s | C18 C21 | U64 k [0..%d]\nusing T = %s; MUST(tr<T>::max_level == %d); deleg_get<T, %d>(k);\n" % (n, mx - 1, t, mx, i)
        if w:
            out += "@ comp_live_%s | C19 C21 | %s w [%s]\ndeleg_live<%s, %d>(w);\n" % (n, w, rg, t, i)
    return out


COMP_MORE = r'''
@ comp_first_max_wins | C21 C18 C20 |
using A = std::tuple<bool, bool>; Buf<A> m; fill(m); tr<A>::set_level(m.p(), 3); MUST(tr<bool>::get_level(&std::get<0>(*m.cp())) == 3 || tr<bool>::get_level(&std::get<1>(*m.cp())) == 3);
@ comp_pair_tie | C21 C20 | U64 k [0..253]
using A = std::pair<bool, bool>; Buf<A> m; fill(m); tr<A>::set_level(m.p(), k); MUST(tr<A>::get_level(m.cp()) == k); MUST((m.b[0] == k + 2 && m.b[1] == 0xA2) || (m.b[1] == k + 2 && m.b[0] == 0xA1));
@ member_ptr | C21 C28 C18 C20 | U64 k [0..511]
using T = NodeNext; MUST(tr<T>::max_level == 512); Buf<T> m; fill(m); const unsigned o = static_cast<unsigned>(reinterpret_cast<const u8*>(&mref(m).next) - m.b); tr<T>::set_level(m.p(), k); MUST(tr<T>::get_level(m.cp()) == k); MUST(tr<E*>::get_level(&mref(m).next) == k); MUST(rest(m, o, 8)); Buf<T> u; tr<E*>::set_level(&static_cast<Node&>(*u.p()).next, k); MUST(tr<T>::get_level(u.cp()) == k);
@ member_bool | C21 C28 C18 | U64 k [0..253]
using T = NodeOn; MUST(tr<T>::max_level == 254); Buf<T> m; fill(m); const unsigned o = static_cast<unsigned>(reinterpret_cast<const u8*>(&mref(m).on) - m.b); tr<T>::set_level(m.p(), k); MUST(tr<T>::get_level(m.cp()) == k); MUST(rest(m, o, 1));
@ member_live | C19 C28 | bool w, E& x | global
Node n{4, &x, w}; opt::option<NodeOn> a; MUST(!a.has_value()); a = n; MUST(a.has_value()); MUST(static_cast<Node&>(*a).id == 4 && static_cast<Node&>(*a).next == &x && static_cast<Node&>(*a).on == w); opt::option<NodeNext> b(n); MUST(b.has_value()); static_cast<Node&>(*b).next = nullptr; MUST(b.has_value());
@ pair_option_keeps_others | C21 C22 C18 | int v
opt::option<std::pair<int, bool>> a(v, true); opt::option<std::pair<int, bool>> b; MUST(a.has_value()); MUST(!b.has_value()); a.reset(); MUST(!a.has_value()); a.emplace(v, false); MUST(a->first == v); MUST(!a->second);
'''

UNITS = [
    Unit("traits", PRE, gen() + MORE, classes={}, thorough_stds=("c++23",)),
    Unit("comp", PRE + COMP_PRE, gen_comp() + COMP_MORE, classes={}),
]

STR_PRE = r'''
#include <string>
#include <vector>
#include <cstring>
template<class T> struct Buf { alignas(8) u8 b[sizeof(T)]; T* p() { return reinterpret_cast<T*>(b); } const T* cp() const { return reinterpret_cast<const T*>(b); } };
template<class T> using tr = opt::option_traits<T>;
using S = std::string; using OS = opt::option<S>; using Ve = std::vector<int>; using OV = opt::option<Ve>; using VB = std::vector<bool>;
'''
STR = r'''
@ str_levels | C18 C20 | U64 k [0..254]
MUST(tr<S>::max_level == 255); Buf<S> m; tr<S>::set_level(m.p(), k); MUST(tr<S>::get_level(m.cp()) == k); MUST(m.cp()->data() == nullptr); MUST(m.cp()->size() == k);
@ wstr_levels | C18 C20 | U64 k [0..254]
using W = std::wstring; MUST(tr<W>::max_level == 255); Buf<W> m; tr<W>::set_level(m.p(), k); MUST(tr<W>::get_level(m.cp()) == k); MUST(m.cp()->data() == nullptr); MUST(m.cp()->size() == k);
@ u16str_levels | C18 C20 | U64 k [0..254]
using W = std::u16string; MUST(tr<W>::max_level == 255); Buf<W> m; tr<W>::set_level(m.p(), k); MUST(tr<W>::get_level(m.cp()) == k);
@ str_default | C19 C20 |
S s; MUST(tr<S>::get_level(&s) >= tr<S>::max_level); OS a(std::in_place); MUST(a.has_value()); MUST(a->size() == 0); OS b; MUST(!b.has_value()); b = S{}; MUST(b.has_value()); b.reset(); MUST(!b.has_value()); b = std::move(a); MUST(b.has_value()); MUST(a.has_value());
@ str_short | C19 C20 | char c
S s(3u, c); MUST(tr<S>::get_level(&s) >= tr<S>::max_level); OS a(std::move(s)); MUST(a.has_value()); MUST(a->size() == 3); MUST((*a)[1] == c); MUST(tr<S>::get_level(&s) >= tr<S>::max_level); OS b; MUST(!b.has_value()); b = std::move(a); MUST(b.has_value()); MUST(b->size() == 3); MUST((*b)[2] == c); MUST(a.has_value());
@ str_long | C19 C01 C20 | | alloc
{ S s(40u, 'x'); MUST(tr<S>::get_level(&s) >= tr<S>::max_level); OS a(std::move(s)); MUST(a.has_value()); MUST(a->size() == 40); OS b; b = std::move(a); MUST(b.has_value()); MUST(b->size() == 40); MUST(a.has_value()); b.reset(); MUST(!b.has_value()); b.emplace(20u, 'y'); MUST(b.has_value()); }
@ str_words | C19 C20 | U64 p [1..0xffffffffffffffff], U64 n
Buf<S> m; std::memcpy(m.b, &p, 8); std::memcpy(m.b + 8, &n, 8); MUST(tr<S>::get_level(m.cp()) >= tr<S>::max_level);
@ str_nested | C19 C22 C18 |
opt::option<OS> n; MUST(!n.has_value()); n.emplace(); MUST(n.has_value()); MUST(!n->has_value()); n->emplace(2u, 'a'); MUST(n.has_value() && n->has_value()); MUST((*n)->size() == 2); n->reset(); MUST(n.has_value() && !n->has_value()); n.reset(); MUST(!n.has_value());
@ vec_levels | C18 C20 | U64 k [0..254]
MUST(tr<Ve>::max_level == 255); Buf<Ve> m; for (unsigned i = 0; i < sizeof(Ve); ++i) m.b[i] = static_cast<u8>(0xA1 + i); tr<Ve>::set_level(m.p(), k); MUST(tr<Ve>::get_level(m.cp()) == k); MUST(reinterpret_cast<std::uintptr_t>(m.cp()->data()) == static_cast<std::uintptr_t>(-1) - 76326 + k); for (unsigned i = 8; i < sizeof(Ve); ++i) MUST(m.b[i] == static_cast<u8>(0xA1 + i)); Buf<Ve> u; tr<Ve>::set_level(u.p(), k); MUST(tr<Ve>::get_level(u.cp()) == k);
@ vecbool_levels | C18 C20 | U64 k [0..254]
MUST(tr<VB>::max_level == 255); Buf<VB> m; tr<VB>::set_level(m.p(), k); MUST(tr<VB>::get_level(m.cp()) == k);
@ vec_words | C19 C20 | U64 p [0..0x7fffffffffff]
Buf<Ve> m; std::memcpy(m.b, &p, 8); MUST(tr<Ve>::get_level(m.cp()) >= tr<Ve>::max_level);
@ vec_default | C19 C20 |
Ve s; MUST(tr<Ve>::get_level(&s) >= tr<Ve>::max_level); OV a(std::in_place); MUST(a.has_value()); MUST(a->empty()); OV b; MUST(!b.has_value()); b = Ve{}; MUST(b.has_value()); b.reset(); MUST(!b.has_value()); b = std::move(a); MUST(b.has_value()); MUST(a.has_value()); VB w; MUST(tr<VB>::get_level(&w) >= tr<VB>::max_level); opt::option<VB> q(std::in_place); MUST(q.has_value());
@ vec_filled | C19 C01 C20 | int x | alloc
{ Ve s(3u, x); MUST(tr<Ve>::get_level(&s) >= tr<Ve>::max_level); OV a(std::move(s)); MUST(a.has_value()); MUST(a->size() == 3); MUST((*a)[1] == x); MUST(tr<Ve>::get_level(&s) >= tr<Ve>::max_level); OV b(a); MUST(b.has_value()); MUST(b->size() == 3); MUST((*b)[2] == x); b.reset(); MUST(!b.has_value()); b = std::move(a); MUST(b.has_value() && b->size() == 3); MUST(a.has_value()); }
@ vec_nested | C19 C22 C18 |
opt::option<OV> n; MUST(!n.has_value()); n.emplace(); MUST(n.has_value()); MUST(!n->has_value()); n->emplace(); MUST(n.has_value() && n->has_value()); n->reset(); MUST(n.has_value() && !n->has_value()); n.reset(); MUST(!n.has_value());
'''
UNITS.append(Unit("str", STR_PRE, STR, classes={}, before="#include <bits/c++config.h>\n#undef _GLIBCXX_EXTERN_TEMPLATE\n#define _GLIBCXX_EXTERN_TEMPLATE 0\n"))
