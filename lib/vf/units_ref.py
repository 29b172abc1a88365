"""Reference options, hashing of identities, iterators, element lookups, conversions."""
from .must import Unit

REF = r'''
struct B { B(const B&); B(B&&); B& operator=(const B&); B& operator=(B&&); ~B(); U64 payload; };
struct E0 { U64 e; };
struct D : E0, B {};
struct P2 { P2(const B&); P2(B&&); ~P2(); U64 payload; };
#define CMP(op) bool operator op(const B&, const B&);
CMP(==) CMP(!=) CMP(<) CMP(<=) CMP(>) CMP(>=)
using OB = opt::option<B&>; using OC = opt::option<const B&>; using OD = opt::option<D&>; using OV = opt::option<B>; using OX = opt::option<B&&>;
struct FB { B& operator()(B&) const noexcept; const B& operator()(const B&) const noexcept; };
struct FBool { bool operator()(const B&) const noexcept; };
struct FVoid { void operator()(B&) const noexcept; };
struct FOB { B& other; OB operator()(B&) const noexcept { if (nd()) return OB(other); return OB(); } };
struct FNone { OB operator()() const noexcept; };
struct Cv { operator B&() const; }; struct Cw { operator B&() const noexcept; };
#define AT(o, x) (o).has_value() && &(o).get() == &(x)
#define OBX(n, v) OB n; if (nd()) n = OB(v);
'''
REF_SC = r'''
@ ctor_default | C16 C03 |
OB a; OB b(opt::none); OB c{}; MUST(!a.has_value()); MUST(!b.has_value()); MUST(!c); MUST(a.ptr_or_null() == nullptr); NOEV;
@ ctor_lvalue | C16 C03 | B& x
OB a(x); OB b = x; OB c{x}; MUST(AT(a, x)); MUST(AT(b, x)); MUST(AT(c, x)); MUST(&*a == &x); MUST(a.operator->() == &x); MUST(a.ptr_or_null() == &x); NOEV;
@ ctor_const | C16 C03 | const B& x
OC a(x); OC b = x; MUST(AT(a, x)); MUST(AT(b, x)); NOEV;
@ ctor_derived | C16 C03 | D& x
OB a(x); OC c(x); MUST(a.has_value() && &a.get() == static_cast<B*>(&x)); MUST(&c.get() == static_cast<B*>(&x)); NOEV;
@ ctor_wrapper | C16 C03 | B& x
std::reference_wrapper<B> w(x); OB a(std::in_place, w); MUST(AT(a, x)); NOEV;
@ ctor_in_place | C16 C03 | B& x
OB a(std::in_place, x); MUST(AT(a, x)); NOEV;
@ ctor_copy | C16 C03 | B& x
OBX(a, x); bool e = a.has_value(); OB b(a); OB c(std::move(a)); const OB d(b); OB f(d); MUST(b.has_value() == e); MUST(c.has_value() == e); MUST(f.has_value() == e); MUST(a.has_value() == e); if (e) { MUST(&b.get() == &x); MUST(&c.get() == &x); MUST(&f.get() == &x); MUST(&a.get() == &x); } NOEV;
@ ctor_from_option_ref | C16 C03 | D& x
OD a; if (nd()) a = OD(x); bool e = a.has_value(); OB b(a); OB c(std::move(a)); OC d(b); MUST(b.has_value() == e); MUST(c.has_value() == e); MUST(d.has_value() == e); if (e) { MUST(&b.get() == static_cast<B*>(&x)); MUST(&c.get() == static_cast<B*>(&x)); MUST(&d.get() == static_cast<B*>(&x)); } MUST(a.has_value() == e); if (e) { MUST(&a.get() == &x); } NOEV;
@ assign_rebind | C16 C03 | B& x, B& y
OBX(a, x); a = y; MUST(AT(a, y)); NOEV;
@ assign_rebind_derived | C16 C03 | B& x, D& y
OBX(a, x); a = y; MUST(a.has_value() && &a.get() == static_cast<B*>(&y)); NOEV;
@ assign_copy | C16 C03 | B& x, B& y
OBX(a, x); OBX(b, y); bool e = b.has_value(); a = b; MUST(a.has_value() == e); MUST(b.has_value() == e); if (e) { MUST(&a.get() == &y); MUST(&b.get() == &y); } NOEV;
@ assign_move | C16 C03 | B& x, B& y
OBX(a, x); OBX(b, y); bool e = b.has_value(); a = std::move(b); MUST(a.has_value() == e); if (e) { MUST(&a.get() == &y); } MUST(b.has_value() == e); if (e) { MUST(&b.get() == &y); } NOEV;
@ assign_option_conv | C16 C03 | B& x, D& y
OBX(a, x); OD b; if (nd()) b = OD(y); bool e = b.has_value(); a = b; MUST(a.has_value() == e); if (e) { MUST(&a.get() == static_cast<B*>(&y)); } MUST(b.has_value() == e); if (e) { MUST(&b.get() == &y); } NOEV;
@ assign_option_conv_const | C16 C03 | const B& x, B& y
OC a; if (nd()) a = x; OBX(b, y); bool e = b.has_value(); a = b; MUST(a.has_value() == e); if (e) { MUST(&a.get() == &y); } MUST(b.has_value() == e); if (e) { MUST(&b.get() == &y); } NOEV;
@ assign_option_conv_rv | C16 C03 | B& x, D& y
OBX(a, x); OD b; if (nd()) b = OD(y); bool e = b.has_value(); a = std::move(b); MUST(a.has_value() == e); if (e) { MUST(&a.get() == static_cast<B*>(&y)); } MUST(b.has_value() == e); if (e) { MUST(&b.get() == &y); } NOEV;
@ assign_none | C16 C04 | B& x
OBX(a, x); OB& r = (a = opt::none); MUST(!a.has_value()); MUST(&r == &a); NOEV;
@ assign_self | C16 C03 C04 | B& x
OBX(a, x); bool e = a.has_value(); a = static_cast<const OB&>(a); a = std::move(a); MUST(a.has_value() == e); if (e) { MUST(&a.get() == &x); } NOEV;
@ reset | C16 C04 | B& x
OBX(a, x); a.reset(); MUST(!a.has_value()); MUST(a == opt::none); MUST(a.ptr_or_null() == nullptr); a.reset(); MUST(!a.has_value()); NOEV;
@ emplace | C16 C04 | B& x, B& y
OBX(a, x); B& r = a.emplace(y); MUST(&r == &y); MUST(AT(a, y)); NOEV;
@ emplace_convert | C16 C26 C02 | B& x, const Cv& y | throws
OBX(a, x); B& r = a.emplace(y); MUST(a.has_value()); MUST(&r == &a.get()); CALLS(1);
@ try_emplace_convert | C16 C26 C02 | B& x, const Cv& y | throws
OBX(a, x); bool e = a.has_value(); (void)a.try_emplace(y); CALLS(e ? 0 : 1); MUST(a.has_value()); if (e) { MUST(&a.get() == &x); }
@ in_place_convert | C16 C26 C02 | const Cv& y | throws
OB a(std::in_place, y); MUST(a.has_value()); CALLS(1); RESET; auto b = opt::make_option<B&>(y); MUST(b.has_value()); CALLS(1);
@ emplace_convert_state | C16 C26 C02 | B& x, const Cv& y | throws
OBX(a, x); try { a.emplace(y); MUST(a.has_value()); } catch (...) { MUST(a.ptr_or_null() == nullptr || a.ptr_or_null() == &x); }
@ try_emplace_convert_state | C16 C26 C02 | B& x, const Cv& y | throws
OB a; bool t = true; try { a.try_emplace(y); t = false; } catch (...) {} MUST(a.has_value() == !t);
@ emplace_convert_nothrow | C16 C26 | B& x, const Cw& y
OBX(a, x); a.emplace(y); MUST(a.has_value()); CALLS(1);
@ value_or_convert | C16 C26 C07 | B& x, const Cv& y | throws
OBX(a, x); B& r = a.value_or(y); CALLS(a.has_value() ? 0 : 1); if (a.has_value()) { MUST(&r == &x); } RESET; B& q = a.value_or_construct(y); CALLS(a.has_value() ? 0 : 1); if (a.has_value()) { MUST(&q == &x); }
@ try_emplace | C16 C04 | B& x, B& y
OBX(a, x); bool e = a.has_value(); B& r = a.try_emplace(y); MUST(&r == (e ? &x : &y)); MUST(a.has_value() && &a.get() == (e ? &x : &y)); NOEV;
@ take | C16 C04 C03 | B& x
OBX(a, x); bool e = a.has_value(); OB b = a.take(); MUST(!a.has_value()); MUST(b.has_value() == e); if (e) { MUST(&b.get() == &x); } NOEV;
@ take_if | C16 C04 C07 | B& x, const FBool& f
OBX(a, x); bool e = a.has_value(); OB b = a.take_if(f); CALLS(e ? 1 : 0); MUST(!(a.has_value() && b.has_value())); MUST((a.has_value() || b.has_value()) == e); if (a.has_value()) { MUST(&a.get() == &x); } if (b.has_value()) { MUST(&b.get() == &x); }
@ swap_member | C16 C05 C03 | B& x, B& y
OBX(a, x); OBX(b, y); bool ea = a.has_value(), eb = b.has_value(); a.swap(b); MUST(a.has_value() == eb); MUST(b.has_value() == ea); if (eb) { MUST(&a.get() == &y); } if (ea) { MUST(&b.get() == &x); } NOEV;
@ access_const | C16 C06 | B& x
const OB a(x); static_assert(std::is_same_v<decltype(a.get()), B&>, ""); static_assert(std::is_same_v<decltype(*a), B&>, ""); static_assert(std::is_same_v<decltype(a.operator->()), B*>, ""); static_assert(std::is_same_v<decltype(a.ptr_or_null()), B*>, ""); static_assert(std::is_same_v<decltype(a.value()), B&>, ""); static_assert(std::is_same_v<decltype(a.get_unchecked()), B&>, ""); MUST(&a.get() == &x); MUST(&*a == &x); MUST(a.operator->() == &x); MUST(a.ptr_or_null() == &x); MUST(&a.value() == &x); MUST(&a.value_or_throw() == &x); MUST(&a.get_unchecked() == &x); NOEV;
@ access_rvalue | C16 C06 | B& x
OB a(x); static_assert(std::is_same_v<decltype(std::move(a).get()), B&>, ""); static_assert(std::is_same_v<decltype(*std::move(a)), B&>, ""); static_assert(std::is_same_v<decltype(std::move(a).value()), B&>, ""); MUST(&std::move(a).get() == &x); MUST(&*std::move(a) == &x); MUST(&std::move(a).value() == &x); MUST(&std::move(a).value_or_throw() == &x); MUST(&std::move(a).get_unchecked() == &x); MUST(AT(a, x)); NOEV;
@ get_empty | C16 C06 | | mustverify
OB a; (void)a.get();
@ get_empty_const | C16 C06 | | mustverify
const OB a; (void)a.get();
@ deref_empty | C16 C06 | | mustverify
OB a; (void)*a;
@ deref_empty_rv | C16 C06 | | mustverify
OB a; (void)*std::move(a);
@ arrow_empty | C16 C06 | | mustverify
const OB a; (void)a.operator->();
@ value_empty | C16 C06 | | mustthrow
OB a; (void)a.value();
@ value_empty_const_rv | C16 C06 | | mustthrow
const OB a; (void)std::move(a).value();
@ value_or_throw_empty | C16 C06 | | mustthrow
const OB a; (void)a.value_or_throw();
@ iterate | C16 C13 | B& x
OBX(a, x); int n = 0; for (B& r : a) { MUST(&r == &x); ++n; } MUST(n == (a.has_value() ? 1 : 0)); const OB c(a); for (auto& r : c) { MUST(&r == &x); --n; } MUST(n == 0); NOEV;
@ inspect | C16 C07 | B& x, const FVoid& f
OBX(a, x); bool e = a.has_value(); OB& r = a.inspect(f); CALLS(e ? 1 : 0); MUST(&r == &a); MUST(a.has_value() == e);
@ filter | C16 C07 C08 | B& x, const FBool& f
OBX(a, x); bool e = a.has_value(); OB b = a.filter(f); CALLS(e ? 1 : 0); if (b.has_value()) { MUST(e); MUST(&b.get() == &x); } MUST(a.has_value() == e); if (e) { MUST(&a.get() == &x); }
@ map_to_ref | C16 C07 C08 | B& x, const FB& f
OBX(a, x); bool e = a.has_value(); auto b = a.map(f); static_assert(std::is_same_v<decltype(b), OB>, ""); CALLS(e ? 1 : 0); MUST(b.has_value() == e);
@ map_identity | C16 C07 C08 | B& x
OBX(a, x); bool e = a.has_value(); auto b = a.map([](B& r) -> B& { return r; }); static_assert(std::is_same_v<decltype(b), OB>, ""); MUST(b.has_value() == e); if (e) { MUST(&b.get() == &x); } NOEV;
@ map_member | C16 C07 | B& x
OBX(a, x); bool e = a.has_value(); auto b = a.map(&B::payload); static_assert(std::is_same_v<decltype(b), opt::option<U64&>>, ""); MUST(b.has_value() == e); if (e) { MUST(&b.get() == &x.payload); } NOEV;
@ and_then | C16 C07 | B& x, B& y
OBX(a, x); bool e = a.has_value(); FOB f{y}; auto b = a.and_then(f); static_assert(std::is_same_v<decltype(b), OB>, ""); if (b.has_value()) { MUST(e); MUST(&b.get() == &y); } NOEV;
@ or_else | C16 C07 | B& x, B& y
OBX(a, x); bool e = a.has_value(); OB b = a.or_else([&] { return OB(y); }); MUST(b.has_value() && &b.get() == (e ? &x : &y)); OB c = std::move(a).or_else([] { return OB(); }); MUST(c.has_value() == e); if (e) { MUST(&c.get() == &x); } NOEV;
@ has_value_and | C16 C07 | B& x, const FBool& f
OBX(a, x); bool r = a.has_value_and(f); CALLS(a.has_value() ? 1 : 0); if (!a.has_value()) { MUST(!r); }
@ map_or | C16 C07 | B& x
OBX(a, x); int r = a.map_or(3, [&](B& q) { return &q == &x ? 4 : 5; }); MUST(r == (a.has_value() ? 4 : 3)); int r2 = a.map_or_else([] { return 7; }, [&](B& q) { return &q == &x ? 8 : 9; }); MUST(r2 == (a.has_value() ? 8 : 7)); NOEV;
@ cmp_calls | C16 C09 C17 | const B& x, const B& y | throws
OC a(x), b(y); bool r = a == b; CALLS(1); (void)r; RESET; r = a < b; CALLS(1); RESET; r = a >= y; CALLS(1); RESET; r = x != b; CALLS(1);
@ cmp_empty | C16 C09 | const B& x
OC a, b; if (nd()) b = x; MUST((a == b) == !b.has_value()); MUST((a != b) == b.has_value()); MUST((a < b) == b.has_value()); MUST((b > a) == b.has_value()); MUST(a <= b); MUST(b >= a); MUST(!(a > b)); MUST(!(b < a)); NOEV;
@ or_refs | C16 C10 C08 | B& x, B& y
OBX(a, x); OBX(b, y); bool ea = a.has_value(), eb = b.has_value(); OB c = a | b; MUST(c.has_value() == (ea || eb)); if (ea) { MUST(&c.get() == &x); } else if (eb) { MUST(&c.get() == &y); } OB d = a & b; MUST(d.has_value() == (ea && eb)); if (d) { MUST(&d.get() == &y); } OB f = a ^ b; MUST(f.has_value() == (ea != eb)); if (f) { MUST(&f.get() == (ea ? &x : &y)); } MUST(a.has_value() == ea); MUST(b.has_value() == eb); OB g = std::move(a) | std::move(b); OB h = std::move(a) & std::move(b); OB k = std::move(a) ^ std::move(b); MUST(g.has_value() == (ea || eb)); MUST(h.has_value() == (ea && eb)); MUST(k.has_value() == (ea != eb)); if (ea) { MUST(&g.get() == &x); } else if (eb) { MUST(&g.get() == &y); } if (h) { MUST(&h.get() == &y); } if (k) { MUST(&k.get() == (ea ? &x : &y)); } MUST(a.has_value() == ea); MUST(b.has_value() == eb); NOEV;
@ or_assign | C16 C10 C03 | B& x, B& y
OBX(a, x); OBX(b, y); bool ea = a.has_value(), eb = b.has_value(); OB& r = (a |= b); MUST(&r == &a); MUST(a.has_value() == (ea || eb)); if (ea) { MUST(&a.get() == &x); } else if (eb) { MUST(&a.get() == &y); } a |= x; MUST(a.has_value()); NOEV;
@ zip_refs | C16 C11 C08 | B& x, B& y
OBX(a, x); OBX(b, y); auto c = opt::zip(a, b); static_assert(std::is_same_v<decltype(c), opt::option<std::tuple<B&, B&>>>, ""); MUST(c.has_value() == (a.has_value() && b.has_value())); if (c.has_value()) { MUST(&std::get<0>(*c) == &x); MUST(&std::get<1>(*c) == &y); } auto d = opt::zip(std::move(a), std::move(b)); MUST(d.has_value() == c.has_value()); if (d.has_value()) { MUST(&std::get<0>(*d) == &x); MUST(&std::get<1>(*d) == &y); } NOEV;
@ zip_with_refs | C16 C11 C08 | B& x, B& y
OBX(a, x); OBX(b, y); auto c = opt::zip_with([](B&, B& q) -> B& { return q; }, a, b); static_assert(std::is_same_v<decltype(c), OB>, ""); MUST(c.has_value() == (a.has_value() && b.has_value())); if (c) { MUST(&c.get() == &y); } NOEV;
@ from_nullable | C11 C16 | B& x
B* p = nd() ? &x : nullptr; auto a = opt::from_nullable(p); static_assert(std::is_same_v<decltype(a), OB>, ""); MUST(a.has_value() == (p != nullptr)); if (a) { MUST(&a.get() == &x); } const B* q = p; auto c = opt::from_nullable(q); static_assert(std::is_same_v<decltype(c), OC>, ""); MUST(c.has_value() == (p != nullptr)); if (c) { MUST(&c.get() == &x); } NOEV;
@ hash_identity | C14 C16 | B& x, B& y
OB a(x), b(x), c(y), e; std::hash<OB> h; MUST(h(a) == std::hash<B*>{}(&x)); MUST(h(a) == h(b)); MUST(h(c) == std::hash<B*>{}(&y)); MUST(h(e) == h(OB())); MUST(h(a) == std::hash<OC>{}(OC(x))); NOEV;
@ rvalue_ref | C16 C08 C06 | B& x
OX a(std::move(x)); MUST(a.has_value() && &a.get_unchecked() == &x); static_assert(std::is_same_v<decltype(std::move(a).get()), B&&>, ""); static_assert(std::is_same_v<decltype(a.get()), B&>, ""); OX b(std::move(a)); MUST(&b.get() == &x); b.reset(); MUST(!b.has_value()); NOEV;
@ rvalue_ref_value_or | C16 C08 | B& x
OX a; if (nd()) a = OX(std::move(x)); MUST(a.ptr_or_null() == (a.has_value() ? &x : nullptr)); NOEV;
@ dtor_untouched | C16 C01 | B& x
{ OB a(x); OB b = a; const OB c(x); } NOEV;
@ value_from_ref | C16 C03 C11 | B& x | throws
OBX(a, x); bool e = a.has_value(); RESET; { OV v(a); COPIES(e ? 1 : 0); MUST(v.has_value() == e); if (e) { MUST(&v.get() != &x); } }
@ ref_from_value | C16 C03 | B& x | throws
OV v; if (nd()) v.emplace(x); RESET; { bool e = v.has_value(); OB a = v.map([](B& q) -> B& { return q; }); MUST(a.has_value() == e); if (e) { MUST(&a.get() == &v.get()); } NOEV; }
@ flatten_ref | C11 C16 | B& x
opt::option<OB> a; if (nd()) { OBX(b, x); a.emplace(b); } auto c = opt::flatten(a); MUST(c.has_value() == (a.has_value() && a->has_value())); if (c.has_value()) { MUST(&c.get() == &x); } NOEV;
@ value_or_copy | C16 C07 C08 | B& x, const B& y | throws
OBX(a, x); RESET; { opt::option<P2> p; if (a.has_value()) p.emplace(*a); } MUST(a.ptr_or_null() == nullptr || a.ptr_or_null() == &x);
@ option_const_bind | C16 C03 | const B& x, const B& y
OC a; a = x; MUST(AT(a, x)); a.emplace(y); MUST(AT(a, y)); OC b(std::move(a)); MUST(AT(b, y)); b = opt::none; MUST(!b); NOEV;
'''
NT = {"payload": 8, "dtor": True}
UNITS = [Unit("ref", REF, REF_SC, {"B": NT, "D": {"payload": 16}, "P2": NT}, before="#include <functional>\n")]
