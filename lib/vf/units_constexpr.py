"""C31: every operation documented as constexpr is a constant expression for literal contained types that use a flag."""
from .tl import TUnit

HDR = r'''
#include <opt/option.hpp>
#include <array>
#include <map>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#if __cplusplus >= 202002L
#define CX20 constexpr
#else
#define CX20
#endif
struct G { int x; };
struct K { int x; constexpr K(int v) : x(v) {} };
struct C { int x; constexpr C(int v) : x(v) {} constexpr C(const C& o) : x(o.x) {} constexpr C(C&& o) : x(o.x) { o.x = -1; }
    constexpr C& operator=(const C& o) { x = o.x; return *this; } constexpr C& operator=(C&& o) { x = o.x; o.x = -1; return *this; } };
struct M { int x; constexpr M(int v) : x(v) {} constexpr M(M&& o) : x(o.x) { o.x = -1; } constexpr M& operator=(M&& o) { x = o.x; o.x = -1; return *this; } };
struct A { int x; constexpr A(int v) : x(v) {} A(const A&) = default; A(A&&) = default;
    constexpr A& operator=(const A& o) { x = o.x; return *this; } constexpr A& operator=(A&& o) { x = o.x; return *this; } };
#if __cplusplus >= 202002L
struct D { int x; constexpr D(int v) : x(v) {} constexpr D(const D& o) : x(o.x) {} constexpr D(D&& o) : x(o.x) { o.x = -1; }
    constexpr D& operator=(const D& o) { x = o.x; return *this; } constexpr D& operator=(D&& o) { x = o.x; o.x = -1; return *this; } constexpr ~D() { x = -2; } };
struct R { int x; constexpr R(int v) : x(v) {} R(const R& o) = default; R(R&& o) = default; R& operator=(const R& o) = default; R& operator=(R&& o) = default; constexpr ~R() { x = -2; } };
struct W { int x; constexpr W(int v) : x(v) {} constexpr W(W&& o) : x(o.x) { o.x = -1; } constexpr W& operator=(W&& o) { x = o.x; o.x = -1; return *this; } constexpr ~W() { x = -2; } };
#endif
struct Q { int x; int y; };
struct V2 { int x; int y; constexpr V2(int a, int b) : x(a), y(b) {} };
struct IL { int n; constexpr IL(std::initializer_list<int> l, int k = 0) : n(int(l.size()) + k) {} };
#define CMP(O) template<class X, class Y, std::enable_if_t<std::is_same_v<X, Y> && std::is_class_v<X> && sizeof(X) == sizeof(int) && (sizeof(decltype(X::x)) > 0), int> = 0> constexpr bool operator O(const X& a, const Y& b) { return a.x O b.x; }
CMP(==) CMP(!=) CMP(<) CMP(<=) CMP(>) CMP(>=)
constexpr int val(int v) { return v; }
constexpr int val(const int* v) { return *v; }
template<class X> constexpr auto val(const X& v) -> decltype(v.x) { return v.x; }
struct Fn { template<class X> constexpr int operator()(X&& v) const { return val(v) + 100; } constexpr int operator()() const { return 55; } };
struct F2 { template<class X, class Y> constexpr int operator()(X&& v, Y&& w) const { return val(v) * 10 + val(w); } };
struct Pr { int want; template<class X> constexpr bool operator()(X&& v) const { return val(v) == want; } };
struct Fo { template<class X> constexpr opt::option<int> operator()(X&& v) const { return val(v) + 7; } };
template<class T> struct Ft { int v; constexpr opt::option<T> operator()() const { return opt::option<T>(std::in_place, v); } };
struct In { int* out; template<class X> constexpr void operator()(X&& v) const { *out += val(v); } };
template<class T> constexpr T mv(int v) { return T{v}; }
template<class X> constexpr X&& rv(X& x) { return static_cast<X&&>(x); }
template<class X> constexpr const X& ct(const X& x) { return x; }
template<class X> constexpr const X&& cr(const X& x) { return static_cast<const X&&>(x); }
'''
# (name, needs, code): O is option<T>; needs: copy (T copyable), assign, class (T has member x), agg (only the aggregate), none
OPS = [
    ("def", "", "O o; return !o.has_value() && !o;"),
    ("none", "", "O o = opt::none; O p(opt::none); return !o && !p;"),
    ("dtor", "", "{ O o(mv<T>(3)); O p; (void)o; (void)p; } return true;"),
    ("val", "", "O o(mv<T>(3)); return o.has_value() && bool(o) && val(o.get()) == 3;"),
    ("valimp", "", "O o = mv<T>(3); return val(*o) == 3;"),
    ("vallv", "copy", "T t = mv<T>(4); O o(t); return val(*o) == 4 && val(t) == 4;"),
    ("inplace", "", "O o(std::in_place, 3); return val(*o) == 3;"),
    ("copyc", "copy", "O o(mv<T>(3)); O p(o); O e; O f(e); return val(*p) == 3 && val(*o) == 3 && !f;"),
    ("movec", "", "O o(mv<T>(3)); O p(rv(o)); O e; O f(rv(e)); return val(*p) == 3 && !f;"),
    ("reset", "", "O o(mv<T>(3)); o.reset(); bool a = !o; o.reset(); return a && !o;"),
    ("asnone", "", "O o(mv<T>(3)); o = opt::none; bool a = !o; o = opt::none; return a && !o;"),
    ("asval_full", "assign", "O o(mv<T>(3)); o = mv<T>(4); return val(*o) == 4;"),
    ("asval_empty", "construct assign", "O o; o = mv<T>(4); return val(*o) == 4;"),
    ("ascopy_ff", "copy assign", "O o(mv<T>(3)); O p(mv<T>(4)); o = p; return val(*o) == 4 && val(*p) == 4;"),
    ("ascopy_fe", "copy assign", "O o(mv<T>(3)); O p; o = p; return !o && !p;"),
    ("ascopy_ef", "copy assign construct", "O o; O p(mv<T>(4)); o = p; return val(*o) == 4 && val(*p) == 4;"),
    ("ascopy_ee", "copy assign", "O o; O p; o = p; return !o && !p;"),
    ("asmove_ff", "assign", "O o(mv<T>(3)); O p(mv<T>(4)); o = rv(p); return val(*o) == 4;"),
    ("asmove_fe", "assign", "O o(mv<T>(3)); O p; o = rv(p); return !o && !p;"),
    ("asmove_ef", "assign construct", "O o; O p(mv<T>(4)); o = rv(p); return val(*o) == 4;"),
    ("asmove_ee", "assign", "O o; O p; o = rv(p); return !o && !p;"),
    ("emplace_e", "construct", "O o; auto& r = o.emplace(5); return &r == &*o && val(*o) == 5;"),
    ("emplace_f", "construct", "O o(mv<T>(3)); auto& r = o.emplace(5); return &r == &*o && val(*o) == 5;"),
    ("try_e", "construct", "O o; auto& r = o.try_emplace(5); return &r == &*o && val(*o) == 5;"),
    ("try_f", "", "O o(mv<T>(3)); auto& r = o.try_emplace(5); return &r == &*o && val(*o) == 3;"),
    ("cycle", "construct assign", "O o; o.emplace(1); o.reset(); o.emplace(2); o.reset(); o = mv<T>(3); o = opt::none; o.try_emplace(4); return val(*o) == 4;"),
    ("hva", "", "O o(mv<T>(3)); const O e; return o.has_value_and(Pr{3}) && !ct(o).has_value_and(Pr{4}) && rv(o).has_value_and(Pr{3}) && cr(o).has_value_and(Pr{3}) && !e.has_value_and(Pr{3});"),
    ("take", "", "O o(mv<T>(3)); O p = o.take(); O e; O f = e.take(); return !o && val(*p) == 3 && !f;"),
    ("take_if", "", "O o(mv<T>(3)); O p = o.take_if(Pr{4}); bool a = bool(o) && !p; O q = o.take_if(Pr{3}); return a && !o && val(*q) == 3;"),
    ("inspect", "", "int n = 0; O o(mv<T>(3)); O e; o.inspect(In{&n}); ct(o).inspect(In{&n}); rv(o).inspect(In{&n}); cr(o).inspect(In{&n}); e.inspect(In{&n}); return n == 12;"),
    ("get", "", "O o(mv<T>(3)); return val(o.get()) == 3 && val(ct(o).get()) == 3 && val(rv(o).get()) == 3 && val(cr(o).get()) == 3;"),
    ("deref", "", "O o(mv<T>(3)); return val(*o) == 3 && val(*ct(o)) == 3 && val(*rv(o)) == 3 && val(*cr(o)) == 3;"),
    ("arrow", "class", "O o(mv<T>(3)); return o->x == 3 && ct(o)->x == 3;"),
    ("arrow2", "", "O o(mv<T>(3)); return o.operator->() == &*o && ct(o).operator->() == &*o;"),
    ("getu", "", "O o(mv<T>(3)); return val(o.get_unchecked()) == 3 && val(ct(o).get_unchecked()) == 3 && val(rv(o).get_unchecked()) == 3 && val(cr(o).get_unchecked()) == 3;"),
    ("value", "", "O o(mv<T>(3)); return val(o.value()) == 3 && val(ct(o).value()) == 3 && val(rv(o).value()) == 3 && val(cr(o).value()) == 3;"),
    ("vthrow", "", "O o(mv<T>(3)); return val(o.value_or_throw()) == 3 && val(ct(o).value_or_throw()) == 3 && val(rv(o).value_or_throw()) == 3 && val(cr(o).value_or_throw()) == 3;"),
    ("write", "assign", "O o(mv<T>(3)); *o = mv<T>(4); o.get() = mv<T>(5); *o.operator->() = mv<T>(6); *o.ptr_or_null() = mv<T>(7); return val(*o) == 7;"),
    ("value_or_c", "copy", "const O o(mv<T>(3)); const O e; return val(o.value_or(mv<T>(4))) == 3 && val(e.value_or(mv<T>(4))) == 4;"),
    ("value_or_r", "", "O o(mv<T>(3)); O e; return val(rv(o).value_or(mv<T>(4))) == 3 && val(rv(e).value_or(mv<T>(4))) == 4;"),
    ("voc_c", "copy", "const O o(mv<T>(3)); const O e; return val(o.value_or_construct(4)) == 3 && val(e.value_or_construct(4)) == 4;"),
    ("voc_r", "", "O o(mv<T>(3)); O e; return val(rv(o).value_or_construct(4)) == 3 && val(rv(e).value_or_construct(4)) == 4;"),
    ("map_or", "", "O o(mv<T>(3)); const O e; return o.map_or(1, Fn{}) == 103 && ct(o).map_or(1, Fn{}) == 103 && rv(o).map_or(1, Fn{}) == 103 && cr(o).map_or(1, Fn{}) == 103 && e.map_or(1, Fn{}) == 1;"),
    ("map_or_else", "", "O o(mv<T>(3)); const O e; return o.map_or_else(Fn{}, Fn{}) == 103 && ct(o).map_or_else(Fn{}, Fn{}) == 103 && rv(o).map_or_else(Fn{}, Fn{}) == 103 && cr(o).map_or_else(Fn{}, Fn{}) == 103 && e.map_or_else(Fn{}, Fn{}) == 55;"),
    ("ptr", "", "O o(mv<T>(3)); O e; return o.ptr_or_null() == &*o && ct(o).ptr_or_null() == &*o && e.ptr_or_null() == nullptr && ct(e).ptr_or_null() == nullptr;"),
    ("filter_c", "copy", "O o(mv<T>(3)); return o.filter(Pr{3}).has_value() && !ct(o).filter(Pr{4}).has_value() && cr(o).filter(Pr{3}).has_value() && !O().filter(Pr{3}).has_value();"),
    ("filter_r", "", "O o(mv<T>(3)); O p = rv(o).filter(Pr{3}); O q = rv(p).filter(Pr{4}); return bool(p) && !q;"),
    ("and_then", "", "O o(mv<T>(3)); const O e; return *o.and_then(Fo{}) == 10 && *ct(o).and_then(Fo{}) == 10 && *rv(o).and_then(Fo{}) == 10 && *cr(o).and_then(Fo{}) == 10 && !e.and_then(Fo{});"),
    ("map", "", "O o(mv<T>(3)); const O e; return *o.map(Fn{}) == 103 && *ct(o).map(Fn{}) == 103 && *rv(o).map(Fn{}) == 103 && *cr(o).map(Fn{}) == 103 && !e.map(Fn{});"),
    ("mapid", "copy", "const O o(mv<T>(3)); struct Id { constexpr T operator()(const T& t) const { return t; } }; O p = o.map(Id{}); return val(*p) == 3;"),
    ("or_else_c", "copy", "const O o(mv<T>(3)); const O e; return val(*o.or_else(Ft<T>{9})) == 3 && val(*e.or_else(Ft<T>{9})) == 9;"),
    ("or_else_r", "", "O o(mv<T>(3)); O e; return val(*rv(o).or_else(Ft<T>{9})) == 3 && val(*rv(e).or_else(Ft<T>{9})) == 9;"),
    ("swap_ff", "assign", "O o(mv<T>(3)); O p(mv<T>(4)); o.swap(p); return val(*o) == 4 && val(*p) == 3;"),
    ("swap_fe", "assign construct", "O o(mv<T>(3)); O p; o.swap(p); bool a = !o && val(*p) == 3; o.swap(p); return a && val(*o) == 3 && !p;"),
    ("swap_ee", "assign", "O o; O p; o.swap(p); return !o && !p;"),
    ("fswap", "assign", "O o(mv<T>(3)); O p(mv<T>(4)); opt::swap(o, p); return val(*o) == 4 && val(*p) == 3;"),
    ("range", "", "O o(mv<T>(3)); int n = 0; for (auto& x : o) n += val(x); for (auto& x : ct(o)) n += val(x); O e; for (auto& x : e) n += val(x); return n == 6;"),
    ("it_inc", "", "O o(mv<T>(3)); auto b = o.begin(); auto e = o.end(); auto c = b; auto& r = ++c; return &r == &c && c == e && c != b && b++ == o.begin() && b == e;"),
    ("it_dec", "", "O o(mv<T>(3)); auto b = o.begin(); auto e = o.end(); auto c = e; auto& r = --c; return &r == &c && c == b && e-- == o.end() && e == b;"),
    ("it_add", "", "O o(mv<T>(3)); auto b = o.begin(); auto e = o.end(); auto c = b; c += 1; bool r = c == e; c -= 1; return r && c == b && b + 1 == e && 1 + b == e && e - 1 == b;"),
    ("it_diff", "", "O o(mv<T>(3)); auto b = o.begin(); auto e = o.end(); return e - b == 1 && b - e == -1 && b - b == 0;"),
    ("it_cmp", "", "O o(mv<T>(3)); auto b = o.begin(); auto e = o.end(); return b < e && b <= e && e > b && e >= b && !(b < b) && b <= b && b >= b && !(e <= b);"),
    ("it_cmp2", "", "const O o(mv<T>(3)); auto b = o.begin(); return b == b && !(b != b) && b <= b && b >= b;"),
    ("it_acc", "", "O o(mv<T>(3)); auto b = o.begin(); typename O::const_iterator k = b; return val(*k) == 3 && val(*b) == 3 && b.operator->() == &*o && val(b[0]) == 3 && k == o.begin() && k == ct(o).begin();"),
    ("rangee", "", "const O e; return e.begin() == e.end();"),
    ("cast", "", "O o(mv<T>(3)); return bool(opt::option_cast<T>(rv(o)));"),
    ("make", "", "auto o = opt::make_option(mv<T>(3)); auto p = opt::make_option<T>(4); return val(*o) == 3 && val(*p) == 4;"),
    ("zip", "copy", "const O o(mv<T>(3)); const O e; auto z = opt::zip(o, o); auto y = opt::zip(o, e); return val(std::get<0>(*z)) == 3 && val(std::get<1>(*z)) == 3 && !y;"),
    ("zipr", "", "O o(mv<T>(3)); O p(mv<T>(4)); auto z = opt::zip(rv(o), rv(p)); return val(std::get<0>(*z)) == 3 && val(std::get<1>(*z)) == 4;"),
    ("zipw", "", "const O o(mv<T>(3)); const O p(mv<T>(4)); const O e; auto z = opt::zip_with(F2{}, o, p); return *z == 34 && !opt::zip_with(F2{}, o, e) && !opt::zip_with(F2{}, e, p);"),
    ("fnull", "", "T t = mv<T>(3); auto o = opt::from_nullable(&t); T* n = nullptr; return &*o == &t && !opt::from_nullable(n);"),
    ("gettup", "", "opt::option<std::tuple<T, int>> o(std::in_place, mv<T>(3), 4); opt::option<std::tuple<T, int>> e; return val(*opt::get<0>(o)) == 3 && *opt::get<1>(ct(o)) == 4 && val(*opt::get<0>(rv(o))) == 3 && val(*opt::get<0>(cr(o))) == 3 && !opt::get<0>(e);"),
    ("unzip", "copy", "const opt::option<std::pair<T, int>> o(std::in_place, mv<T>(3), 4); auto u = opt::unzip(o); return val(*std::get<0>(u)) == 3 && *std::get<1>(u) == 4;"),
    ("unzipr", "", "opt::option<std::pair<T, int>> o(std::in_place, mv<T>(3), 4); auto u = opt::unzip(rv(o)); opt::option<std::pair<T, int>> e; auto v = opt::unzip(rv(e)); return val(*std::get<0>(u)) == 3 && *std::get<1>(u) == 4 && !std::get<0>(v);"),
    ("vget", "trivdtor", "std::variant<char, T> v(std::in_place_index<1>, mv<T>(3)); return val(*opt::get<1>(v)) == 3 && !opt::get<0>(v) && val(*opt::get<T>(v)) == 3 && val(*opt::get<1>(rv(v))) == 3 && val(*opt::get<1>(ct(v))) == 3 && val(*opt::get<1>(cr(v))) == 3;"),
    ("at", "", "std::array<T, 2> a{mv<T>(3), mv<T>(4)}; return val(*opt::at(a, 1)) == 4 && !opt::at(a, 2) && val(*opt::at_front(a)) == 3 && val(*opt::at_back(ct(a))) == 4 && val(*opt::at(ct(a), 0)) == 3;"),
    ("or_v", "copy", "const O o(mv<T>(3)); const O e; return val(o | mv<T>(4)) == 3 && val(e | mv<T>(4)) == 4;"),
    ("or_vr", "", "O o(mv<T>(3)); O e; return val(rv(o) | mv<T>(4)) == 3 && val(rv(e) | mv<T>(4)) == 4;"),
    ("or_o", "copy", "O o(mv<T>(3)); O e; O p(mv<T>(4)); return val(*(ct(o) | ct(p))) == 3 && val(*(ct(e) | ct(p))) == 4 && val(*(ct(e) | rv(p))) == 4 && val(*(rv(o) | ct(p))) == 3;"),
    ("or_or", "", "O o(mv<T>(3)); O e; O p(mv<T>(4)); return val(*(rv(e) | rv(p))) == 4 && val(*(rv(o) | rv(e))) == 3;"),
    ("or_as_f", "assign", "O o(mv<T>(3)); o |= mv<T>(5); return val(*o) == 3;"),
    ("or_as_e", "construct assign", "O e; e |= mv<T>(5); return val(*e) == 5;"),
    ("or_aso", "construct assign copy", "O e; O p(mv<T>(5)); e |= p; O f; f |= rv(p); return val(*e) == 5 && val(*f) == 5;"),
    ("and", "copy", "O o(mv<T>(3)); O e; O p(mv<T>(4)); return val(*(ct(o) & ct(p))) == 4 && !(ct(e) & ct(p)) && !(ct(o) & ct(e)) && val(*(ct(o) & rv(p))) == 4;"),
    ("and_r", "", "O o(mv<T>(3)); O p(mv<T>(4)); return val(*(o & rv(p))) == 4;"),
    ("xor", "copy", "O o(mv<T>(3)); O e; O p(mv<T>(4)); return !(ct(o) ^ ct(p)) && val(*(ct(e) ^ ct(p))) == 4 && val(*(ct(o) ^ ct(e))) == 3 && !(ct(e) ^ ct(e)) && val(*(rv(o) ^ ct(e))) == 3 && val(*(ct(e) ^ rv(p))) == 4;"),
    ("xor_r", "", "O o(mv<T>(3)); O e; return val(*(rv(o) ^ rv(e))) == 3;"),
    ("cmp_oo", "", "const O a(mv<T>(3)); const O b(mv<T>(4)); const O e; return a == a && a != b && a < b && a <= b && b > a && b >= a && e == e && e < a && e <= e && a > e && a >= e && a != e && !(e == a);"),
    ("cmp_ov", "", "const O a(mv<T>(3)); const T t = mv<T>(3); const O e; return a == t && !(a != t) && !(a < t) && a <= t && !(a > t) && a >= t && e != t && e < t && e <= t && !(e > t) && !(e >= t);"),
    ("cmp_vo", "", "const O a(mv<T>(3)); const T t = mv<T>(3); const O e; return t == a && !(t != a) && !(t < a) && t <= a && !(t > a) && t >= a && t != e && !(t < e) && !(t <= e) && t > e && t >= e;"),
    ("cmp_on", "", "const O a(mv<T>(3)); const O e; using opt::none; return a != none && none != a && !(a == none) && !(none == a) && e == none && none == e && !(a < none) && none < a && e <= none && none <= a && a > none && !(none > a) && a >= none && none >= e;"),
    ("cconv", "copy conv", "const opt::option<int> i(3); O o(i); opt::option<int> j; O p(rv(j)); return val(*o) == 3 && !p;"),
    ("cconvr", "conv", "opt::option<int> i(3); O o(rv(i)); return val(*o) == 3;"),
    ("asconv", "assign construct conv", "const opt::option<int> i(3); O o; o = i; opt::option<int> j; O p(mv<T>(1)); p = rv(j); opt::option<int> k(8); p = rv(k); return val(*o) == 3 && val(*p) == 8;"),
]
# T -> (expressions used, capabilities)
ALL = {"copy", "assign", "construct", "class", "conv", "trivdtor"}
TYPES = {"int": ("int", ALL - {"class"}, ""), "dbl": ("long", ALL - {"class"}, ""), "G": ("G", ALL - {"conv"}, ""), "K": ("K", ALL, ""),
         "C": ("C", ALL, ""), "M": ("M", ALL - {"copy"}, ""), "A": ("A", ALL, ""), "D": ("D", ALL - {"trivdtor"}, "20"), "R": ("R", ALL - {"trivdtor"}, "20"), "W": ("W", ALL - {"copy", "trivdtor"}, "20"),
         "cint": ("const int", {"copy", "construct", "conv", "trivdtor"}, ""), "cG": ("const G", {"copy", "class", "trivdtor"}, "")}
items = []
# C++17 has no way to start the lifetime of the member of a union within a constant expression, and no constexpr std::swap:
# there, storing into an empty option and passing on a value that is not trivially copied are documented as not usable
TRANSFER = {"copyc", "movec", "take", "take_if", "and", "and_r", "xor", "xor_r", "or_o", "or_or", "or_else_c", "or_else_r", "unzip", "unzipr"}


def in17(tn, n, needs):
    if n.startswith(("swap_f", "fswap", "cconv")) or "conv" in needs:
        return False
    if "construct" in needs:
        return n == "emplace_f" and tn in ("int", "dbl", "G", "K", "cint")
    if tn in ("C", "M") and n in TRANSFER:
        return False
    return not (tn in ("cint", "cG") and n in ("cast", "mapid"))


def item(name, std, ret_body, t):
    items.append("@ %s | C31 | ok | %s\nusing T = %s; using O = opt::option<T>; constexpr bool f() { %s } CHECK(f()); %s\n" % (name, std, t, ret_body, ""))


for tn, (t, caps, mode) in TYPES.items():
    for n, needs, code in OPS:
        if not set(needs.split()) <= caps:
            continue
        item("%s_%s" % (n, tn), ("" if mode != "20" and in17(tn, n, needs) else "std=c++20 std=c++23") + (" cxx=clang++" if n == "it_diff" else ""), code, t)

ROPS = [
    ("def", "O o; O p(opt::none); return !o && !p;"),
    ("val", "O o(a); return &o.get() == &a && &*o == &a && o.operator->() == &a && o.ptr_or_null() == &a && &o.value() == &a && &o.value_or_throw() == &a && &o.get_unchecked() == &a;"),
    ("cval", "const O o(a); return &o.get() == &a && &*o == &a && o.operator->() == &a && o.ptr_or_null() == &a && &o.value() == &a && &rv(o).get() == &a && &*rv(o) == &a && o.has_value();"),
    ("inpl", "O o(std::in_place, a); return &*o == &a;"),
    ("copy", "O o(a); O p(o); O q(rv(o)); O e; O f(e); return &*p == &a && &*q == &a && !f;"),
    ("asg", "O o(a); O p(b); o = p; bool r = &*o == &b; o = opt::none; r = r && !o; o = rv(p); r = r && &*o == &b; o = a; r = r && &*o == &a; O e; o = e; return r && !o && b.x == 2 && a.x == 1;"),
    ("reset", "O o(a); o.reset(); bool r = !o; o.reset(); return r && !o && a.x == 1;"),
    ("emp", "O o; auto& x = o.emplace(a); bool r = &x == &a && &*o == &a; auto& y = o.try_emplace(b); r = r && &y == &a && &*o == &a; auto& z = o.emplace(b); return r && &z == &b && &*o == &b;"),
    ("take", "O o(a); O p = o.take(); O q = p.take_if(Pr{5}); bool r = !o && &*p == &a && !q; O s = p.take_if(Pr{1}); return r && !p && &*s == &a;"),
    ("vor", "const O o(a); const O e; T& x = b; return &o.value_or(x) == &a && &e.value_or(x) == &b;"),
    ("vorr", "O o(a); O e; T& x = b; return &rv(o).value_or(x) == &a && &rv(e).value_or(x) == &b;"),
    ("map", "const O o(a); const O e; return *o.map(Fn{}) == 101 && !e.map(Fn{}) && o.map_or(7, Fn{}) == 101 && e.map_or(7, Fn{}) == 7 && o.map_or_else(Fn{}, Fn{}) == 101 && e.map_or_else(Fn{}, Fn{}) == 55 && *o.and_then(Fo{}) == 8 && !e.and_then(Fo{});"),
    ("filter", "O o(a); return &*o.filter(Pr{1}) == &a && !o.filter(Pr{2}) && o.has_value_and(Pr{1}) && !o.has_value_and(Pr{2});"),
    ("insp", "int n = 0; O o(a); O e; o.inspect(In{&n}); e.inspect(In{&n}); return n == 1;"),
    ("cmp", "const O o(a); const O p(b); const O e; return o != p && o < p && o == o && e < o && o == a && o < b && b > o && e != a && o != opt::none && e == opt::none;"),
    ("range", "O o(a); int n = 0; for (auto& x : o) n += x.x; O e; for (auto& x : e) n += x.x; auto it = o.begin(); return n == 1 && &*it == &a && ++it == o.end();"),
    ("orop", "const O o(a); const O p(b); const O e; return &*(o | p) == &a && &*(e | p) == &b && &*(o & p) == &b && !(e & p) && !(o ^ p) && &*(o ^ e) == &a;"),
    ("zip", "const O o(a); const O p(b); const O e; auto z = opt::zip(o, p); return std::get<0>(*z).x == 1 && std::get<1>(*z).x == 2 && !opt::zip(o, e) && *opt::zip_with(F2{}, o, p) == 12;"),
    ("fnull", "O o = opt::from_nullable(&a); return &*o == &a;"),
    ("conv", "opt::option<G&> o(m); opt::option<const G&> c(o); opt::option<const G&> d; d = o; d = m; return &*c == &m && &*d == &m;"),
    ("orelse", "const O o(a); const O e; struct E { T* p; constexpr O operator()() const { return *p; } }; return &*o.or_else(E{&b}) == &a && &*e.or_else(E{&b}) == &b;"),
]
for tn, t in (("mut", "G"), ("cst", "const G")):
    for n, code in ROPS:
        item("ref_%s_%s" % (n, tn), "", "G m{3}; (void)m; T a{1}; T b{2}; (void)b; " + code.replace("O ", "OR ").replace("O(", "OR(").replace("<const O>", "<const OR>"), "%s; using OR = opt::option<T&>" % t)
item("ref_swap", "std=c++20 std=c++23", "G a{1}; G b{2}; OR o(a); OR p(b); o.swap(p); return &*o == &b && &*p == &a && a.x == 1;", "G; using OR = opt::option<T&>")
X = [
    ("two", "", "opt::option<V2> o(1, 2); opt::option<Q> p(1, 2); opt::option<Q> q{3, 4}; return o->y == 2 && p->y == 2 && q->x == 3;"),
    ("inpl2", "", "opt::option<V2> o(std::in_place, 1, 2); opt::option<Q> p(std::in_place, 1, 2); auto m = opt::make_option<V2>(5, 6); auto n = opt::make_option<Q>(5, 6); return o->x == 1 && p->y == 2 && m->x == 5 && n->y == 6;"),
    ("il", "", "opt::option<IL> o(std::in_place, {1, 2, 3}); opt::option<IL> p(std::in_place, {1, 2}, 10); auto m = opt::make_option<IL>({1, 2, 3, 4}, 5); return o->n == 3 && p->n == 12 && m->n == 9;"),
    ("voc2", "", "const opt::option<V2> e; const opt::option<Q> f; const opt::option<IL> g; return e.value_or_construct(1, 2).y == 2 && f.value_or_construct(1, 2).y == 2 && g.value_or_construct({1, 2}, 3).n == 5 && opt::option<IL>().value_or_construct({1, 2}, 3).n == 5;"),
    ("emp2", "std=c++20 std=c++23", "opt::option<V2> o; o.emplace(1, 2); opt::option<Q> p; p.emplace(3, 4); opt::option<Q> q; q.try_emplace(5, 6); return o->y == 2 && p->y == 4 && q->x == 5;"),
    ("emp2f", "", "opt::option<V2> o(5, 6); o.emplace(1, 2); opt::option<Q> p(7, 8); p.emplace(3, 4); return o->y == 2 && p->y == 4;"),
    ("flag", "", "constexpr opt::option<int> a; constexpr opt::option<int> b(3); constexpr auto c = b; static_assert(!a && *b == 3 && c == b && a != b); return b.map(Fn{}).value() == 103;"),
    ("glob", "", "static_assert(opt::option<G>{}.value_or(G{4}).x == 4 && opt::make_option(G{4})->x == 4 && opt::option<int>(4).value_or(3) == 4 && opt::option<int>() == opt::none); return true;"),
    ("none", "", "constexpr opt::none_t n = opt::none; constexpr opt::option<int> e(n); return !e;"),
    ("zip3", "", "opt::option<int> a(1), b(2), c(3); return *opt::zip_with(Sum{}, a, b, c) == 6 && std::get<2>(*opt::zip(a, b, c)) == 3;"),
    ("io", "", "opt::option<int> a(1); auto x = opt::io(a); (void)x; return true;"),
    ("memfn", "", "opt::option<G> o(G{4}); return *o.map(&G::x) == 4;"),
    ("arrmap", "", "std::array<int, 3> a{1, 2, 3}; *opt::at(a, 1) = 9; *opt::at_front(a) = 8; *opt::at_back(a) = 7; return a[1] == 9 && a[0] == 8 && a[2] == 7 && !opt::at(a, 3) && !opt::at(a, std::size_t(-1));"),
]
for n, st, code in X:
    item("x_" + n, st, code, "int")
HDR += "struct Sum { constexpr int operator()(int a, int b, int c) const { return a + b + c; } };\n"
# every mixture of defaulted and user-provided constexpr special members
MIXOPS = [o for o in OPS if o[0] in ("dtor", "val", "vallv", "copyc", "movec", "asval_full", "asval_empty", "emplace_e", "take", "take_if", "swap_ff", "swap_fe", "or_or", "filter_r", "cycle") or o[0].startswith(("ascopy", "asmove"))]
IN17 = {"val", "vallv", "asval_full", "ascopy_ff", "ascopy_fe", "ascopy_ee", "asmove_ff", "asmove_fe", "asmove_ee"}
for m in range(32):
    cc, mc, ca, ma, dt = (m >> i & 1 for i in range(5))
    if (cc, mc, ca, ma) == (1, 1, 1, 1):
        continue
    x = "Z%d%d%d%d%d" % (cc, mc, ca, ma, dt)
    src = "struct %s { int x; constexpr %s(int v) : x(v) {} " % (x, x)
    src += "constexpr %s(const %s& o) : x(o.x) {} " % (x, x) if cc else "%s(const %s&) = default; " % (x, x)
    src += "constexpr %s(%s&& o) : x(o.x) { o.x = -1; } " % (x, x) if mc else "%s(%s&&) = default; " % (x, x)
    src += "constexpr %s& operator=(const %s& o) { x = o.x; return *this; } " % (x, x) if ca else "%s& operator=(const %s&) = default; " % (x, x)
    src += "constexpr %s& operator=(%s&& o) { x = o.x; o.x = -1; return *this; } " % (x, x) if ma else "%s& operator=(%s&&) = default; " % (x, x)
    src += "constexpr ~%s() { x = -2; } " % x if dt else ""
    HDR += ("#if __cplusplus >= 202002L\n%s};\n#endif\n" if dt else "%s};\n") % src
    for n, needs, code in MIXOPS:
        item("mix_%s_%s" % (n, x), "" if n in IN17 and not dt else "std=c++20 std=c++23", code, x)
S20 = "std=c++20 std=c++23"
X2 = [
    ("expl", "", "opt::option<Ex> o(3); opt::option<Ex> p{4}; int i = 5; opt::option<Ex> q(i); return o->x == 3 && p->x == 4 && q->x == 5;"),
    ("explopt", S20, "const opt::option<int> i(3); opt::option<int> j(4); const opt::option<int> e; opt::option<Ex> o(i); opt::option<Ex> p(rv(j)); opt::option<Ex> f(e); return o->x == 3 && p->x == 4 && !f;"),
    ("implopt", S20, "const opt::option<int> i(3); opt::option<int> j(4); opt::option<K> o = i; opt::option<K> p = rv(j); return o->x == 3 && p->x == 4;"),
    ("ocast", "", "const opt::option<int> i(3); const opt::option<int> e; return *opt::option_cast<long>(i) == 3 && !opt::option_cast<long>(e) && opt::option_cast<Ex>(i)->x == 3 && opt::option_cast<K>(opt::option<int>(4))->x == 4 && !opt::option_cast<K>(opt::option<int>());"),
    ("mapagg", "", "opt::option<int> i(3); const opt::option<int> j(4); return i.map(ToG{})->x == 3 && j.map(ToG{})->x == 4 && i.map(ToD2{})->a.x == 3 && !opt::option<int>().map(ToD2{});"),
    ("swapmix", S20, "opt::option<Sx> a(3); opt::option<Sy> b(4); a.swap(b); bool r = a->x == 4 && b->x == 3; opt::swap(a, b); r = r && a->x == 3 && b->x == 4; swap(b, a); r = r && a->x == 4 && b->x == 3; b.reset(); opt::swap(a, b); return r && !a && b->x == 4;"),
    ("gett", "", "opt::option<std::tuple<G, int>> o(std::in_place, G{3}, 4); const opt::option<std::tuple<G, int>> e; return *opt::get<int>(o) == 4 && opt::get<G>(ct(o))->x == 3 && opt::get<G>(rv(o))->x == 3 && opt::get<G>(cr(o))->x == 3 && !opt::get<int>(e) && !opt::get<G>(cr(e)) && !opt::get<1>(e) && !opt::get<1>(cr(e)) && *opt::get<1>(rv(o)) == 4;"),
    ("vget", "", "std::variant<char, G> v(G{3}); return !opt::get<0>(v) && !opt::get<0>(ct(v)) && !opt::get<0>(rv(v)) && !opt::get<0>(cr(v)) && opt::get<1>(v)->x == 3 && opt::get<1>(ct(v))->x == 3 && opt::get<1>(rv(v))->x == 3 && opt::get<1>(cr(v))->x == 3;"),
    ("vgett", "", "std::variant<char, G> v(G{3}); return !opt::get<char>(v) && !opt::get<char>(ct(v)) && !opt::get<char>(rv(v)) && !opt::get<char>(cr(v)) && opt::get<G>(v)->x == 3 && opt::get<G>(ct(v))->x == 3 && opt::get<G>(rv(v))->x == 3 && opt::get<G>(cr(v))->x == 3;"),
    ("io2", "", "opt::option<int> a(1); const opt::option<int> b(2); int n = 3; auto x = opt::io(a); auto y = opt::io(b); auto z = opt::io(a, n); auto w = opt::io(b, n); (void)x; (void)y; (void)z; (void)w; return true;"),
    ("lookup", "", "Mp m{{{1, 10}, {2, 20}}}; const Mp c{{{1, 10}, {2, 20}}}; St s{{5, 6}}; *opt::lookup(m, 2) = 21; return *opt::lookup(m, 1) == 10 && m.e[1].second == 21 && !opt::lookup(m, 3) && *opt::lookup(c, 2) == 20 && !opt::lookup(c, 7) && *opt::lookup(s, 6) == 6 && !opt::lookup(s, 7);"),
    ("flat1", "", "opt::option<G> o(G{3}); const opt::option<G> e; return opt::flatten(o)->x == 3 && opt::flatten(ct(o))->x == 3 && !opt::flatten(e) && opt::flatten(rv(o))->x == 3;"),
    ("fnullc", "", "const G g{3}; const G* n = nullptr; return opt::from_nullable(&g)->x == 3 && !opt::from_nullable(n);"),
    ("atc", "", "const std::array<G, 2> a{{G{3}, G{4}}}; Ctr e{{1, 2}, 0}; Ctr f{{1, 2}, 2}; return opt::at(a, 1)->x == 4 && opt::at_front(a)->x == 3 && opt::at_back(a)->x == 4 && !opt::at_front(e) && !opt::at_back(e) && !opt::at(e, 0) && *opt::at_back(f) == 2 && *opt::at_front(ct(f)) == 1 && !opt::at_front(ct(e)) && !opt::at_back(ct(e));"),
    ("memfn2", "", "opt::option<Mf> o(Mf{4}); const opt::option<Mf> c(Mf{5}); return *o.map(&Mf::get) == 4 && *c.map(&Mf::get) == 5 && *c.map(&Mf::x) == 5 && o.map_or(1, &Mf::get) == 4 && o.has_value_and(&Mf::is) && c.filter(&Mf::is).has_value();"),
    ("memfn4", S20, "Mf m{4}; std::reference_wrapper<Mf> w(m); opt::option<Wr> o(w); return *o.map(&Mf::get) == 4 && *o.map(&Mf::x) == 4;"),
    ("memfn5", "", "opt::option<Md> o(Md{}); return *o.map(&Mf::get) == 9 && *o.map(&Mf::x) == 9;"),
    ("aggd", S20, "opt::option<AgD> o(std::in_place, 3); opt::option<ArD> p(std::in_place, 1, 2); opt::option<ArD> q(1, 2); return o->x == 3 && p->a.b == 2 && q->a.a == 1 && opt::option<int>(5).map(ToAgD{})->x == 5;"),
    ("elide", "", "opt::option<ArE> p(std::in_place, 1, 2); opt::option<ArE> q(1, 2); auto m = opt::make_option<ArE>(3, 4); return p->a.b == 2 && q->a.a == 1 && m->a.b == 4;"),
    ("senttr", "", "using tr = opt::option_traits<Sn>; Sn a{3}; Sn b{-1}; bool r = tr::get_level(&b) == 0 && tr::get_level(&a) != 0; tr::set_level(&a, 0); return r && tr::get_level(&a) == 0 && a.x == -1;"),
    ("sentopt", "", "opt::option<Sn> a(Sn{3}); const opt::option<Sn> b(a); return a && b->x == 3 && a.value_or(Sn{4}).x == 3 && *a.map(&Sn::x) == 3;"),
]
for n, st, code in X2:
    item("y_" + n, st, code, "int")
HDR += '''struct Ex { int x; constexpr explicit Ex(int v) : x(v) {} };
struct D2 { G a; int b; }; struct ToG { constexpr G operator()(int v) const { return G{v}; } }; struct ToD2 { constexpr D2 operator()(int v) const { return D2{G{v}, v}; } };
struct Sy; struct Sx { int x; constexpr Sx(int v) : x(v) {} constexpr Sx(const Sx&) = default; constexpr explicit Sx(Sy&& o); constexpr Sx& operator=(const Sx&) = default; };
struct Sy { int x; constexpr Sy(int v) : x(v) {} constexpr Sy(const Sy&) = default; constexpr explicit Sy(Sx&& o); constexpr Sy& operator=(const Sy&) = default; };
constexpr Sx::Sx(Sy&& o) : x(o.x) {}
constexpr Sy::Sy(Sx&& o) : x(o.x) {}
constexpr void swap(Sx& a, Sy& b) noexcept { int t = a.x; a.x = b.x; b.x = t; }
constexpr void swap(Sy& a, Sx& b) noexcept { int t = a.x; a.x = b.x; b.x = t; }
template<class A, class B> struct Pa { A first; B second; };
struct Mp { Pa<int, int> e[2]; using mapped_type = int; constexpr Pa<int, int>* find(int k) { return e[0].first == k ? e : e[1].first == k ? e + 1 : e + 2; } constexpr const Pa<int, int>* find(int k) const { return e[0].first == k ? e : e[1].first == k ? e + 1 : e + 2; } constexpr Pa<int, int>* end() { return e + 2; } constexpr const Pa<int, int>* end() const { return e + 2; } };
struct St { int e[2]; constexpr const int* find(int k) const { return e[0] == k ? e : e[1] == k ? e + 1 : e + 2; } constexpr const int* end() const { return e + 2; } };
struct Ctr { int e[2]; std::size_t n; constexpr std::size_t size() const { return n; } constexpr int& operator[](std::size_t i) { return e[i]; } constexpr int& front() { return e[0]; } constexpr int& back() { return e[n - 1]; } constexpr const int& operator[](std::size_t i) const { return e[i]; } constexpr const int& front() const { return e[0]; } constexpr const int& back() const { return e[n - 1]; } };
struct Mf { int x; constexpr int get() const { return x; } constexpr bool is() const { return x > 0; } }; struct Md : Mf { int pad; constexpr Md() : Mf{9}, pad(0) {} };

struct I2 { int a; int b; }; struct ArE { I2 a; };
#if __cplusplus >= 202002L
struct AgD { int x; constexpr ~AgD() { x = -2; } }; struct ArD { I2 a; constexpr ~ArD() { a.a = -2; } }; struct ToAgD { constexpr AgD operator()(int v) const { return AgD{v}; } };
struct Wr { std::reference_wrapper<Mf> w; constexpr Wr(std::reference_wrapper<Mf> v) : w(v) {} constexpr Mf& operator*() const { return w.get(); } };
#endif
struct Sn { int x; constexpr bool operator==(const Sn& o) const { return x == o.x; } };
template<> struct opt::sentinel_option_traits<Sn> { static constexpr Sn sentinel_value{-1}; };
'''
HDR = HDR.replace("#include <map>", "#include <functional>\n#include <map>")
UNITS = [TUnit("constexprs", HDR, "".join(items), chunk=150)]
