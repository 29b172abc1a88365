"""Iterators, element lookups, callbacks through pointers to members, conversions."""
from .must import Unit

PRE = r'''
struct B { B(const B&); B(B&&); B& operator=(const B&); B& operator=(B&&); ~B(); U64 payload; void mut(); void obs() const noexcept; U64& acc() noexcept; bool pred() const; B&& rv() && noexcept; };
using O = opt::option<B>;
'''
IT = r'''
@ it_range | C13 | B& x | throws
O a; if (nd()) a.emplace(x); RESET; bool e = a.has_value(); auto i = a.begin(), z = a.end(); MUST((z - i) == (e ? 1 : 0)); MUST((i - z) == (e ? -1 : 0)); MUST((i == z) == !e); MUST((i != z) == e); if (e) { MUST(&*i == &a.get()); MUST(i.operator->() == &a.get()); MUST(&i[0] == &a.get()); MUST(&z[-1] == &a.get()); MUST(++i == z); } NOEV;
@ it_range_const | C13 C17 | B& x | throws
O a; if (nd()) a.emplace(x); const O& c = a; RESET; bool e = a.has_value(); auto i = c.begin(), z = c.end(); static_assert(std::is_same_v<decltype(*i), const B&> && std::is_same_v<decltype(i.operator->()), const B*> && std::is_same_v<decltype(i[0]), const B&>, ""); MUST((z - i) == (e ? 1 : 0)); MUST((i == z) == !e); if (e) { MUST(&*i == &a.get()); MUST(i.operator->() == &a.get()); MUST(++i == z); } NOEV;
@ it_for | C13 | B& x | throws
O a; if (nd()) a.emplace(x); const O& c = a; RESET; int n = 0; for (B& r : a) { MUST(&r == &a.get()); ++n; } MUST(n == (a.has_value() ? 1 : 0)); for (const B& r : c) { MUST(&r == &a.get()); ++n; } MUST(n == (a.has_value() ? 2 : 0)); NOEV;
@ it_for_flag | C13 | int v [-5..5]
opt::option<int> a; if (nd()) a = v; int n = 0; for (int& r : a) { MUST(&r == &a.get()); MUST(r == v); ++n; r = 7; } MUST(n == (a.has_value() ? 1 : 0)); if (n) { MUST(*a == 7); }
@ it_const_ref_option | C13 C16 | const B& x
opt::option<const B&> a; if (nd()) a = x; int n = 0; for (auto& r : a) { static_assert(std::is_same_v<decltype(r), const B&>, ""); MUST(&r == &x); ++n; } MUST(n == (a.has_value() ? 1 : 0)); NOEV;
@ it_increment | C13 |
opt::option<int> a(3); auto b = a.begin(), e = a.end(); auto c = b; auto& r = ++c; MUST(&r == &c); MUST(c == e); MUST(c != b); auto d = c--; MUST(d == e); MUST(c == b); d = c++; MUST(d == b); MUST(c == e); auto& s = --c; MUST(&s == &c); MUST(c == b);
@ it_seek | C13 | 
opt::option<int> a(3); const auto b = a.begin(), e = a.end(); MUST(b + 1 == e); MUST(1 + b == e); MUST(e - 1 == b); MUST(b + 0 == b); MUST(e + (-1) == b); MUST(b - (-1) == e); MUST(e - b == 1); MUST(b - e == -1); MUST(b - b == 0); auto c = b; auto& r = (c += 1); MUST(&r == &c); MUST(c == e); auto& s = (c -= 1); MUST(&s == &c); MUST(c == b); c -= -1; MUST(c == e); c += -1; MUST(c == b); MUST(&e[-1] == &a.get()); MUST(&b[0] == &a.get());
@ it_compare | C13 |
opt::option<int> a(3); const auto b = a.begin(), e = a.end(); MUST(b < e); MUST(!(e < b)); MUST(!(b < b)); MUST(e > b); MUST(!(b > e)); MUST(!(e > e)); MUST(b <= e); MUST(b <= b); MUST(!(e <= b)); MUST(e >= b); MUST(e >= e); MUST(!(b >= e)); MUST(b == b); MUST(!(b == e)); MUST(b != e); MUST(!(b != b));
@ it_to_const | C13 |
opt::option<int> a(3); const opt::option<int>& c = a; opt::option<int>::const_iterator i = a.begin(); MUST(i == c.begin()); MUST(&*i == &a.get()); i = a.end(); MUST(i == c.end()); static_assert(!std::is_convertible_v<opt::option<int>::const_iterator, opt::option<int>::iterator>, "");
@ it_copy | C13 |
opt::option<int> a(3), q(4); auto b = a.begin(); auto c = b; auto d = q.begin(); MUST(c == b); MUST(d != b); c = d; MUST(c == d); MUST(*c == 4); *c = 9; MUST(*q == 9); MUST(*a == 3); std::swap(c, b); MUST(&*b == &q.get()); MUST(&*c == &a.get());
@ it_default | C13 |
opt::option<int>::iterator a, b{}; MUST(a == b); MUST(!(a != b)); MUST(b - b == 0); opt::option<int> e; MUST(e.begin() == e.end()); MUST(e.end() - e.begin() == 0);
@ it_default_deref | C13 | | mustverify
opt::option<int>::iterator a{}; (void)*a;
@ it_default_arrow | C13 | | mustverify
opt::option<int>::iterator a{}; (void)a.operator->();
@ it_default_inc | C13 | | mustverify
opt::option<int>::iterator a{}; ++a;
@ it_default_postinc | C13 | | mustverify
opt::option<int>::iterator a{}; a++;
@ it_default_dec | C13 | | mustverify
opt::option<int>::iterator a{}; --a;
@ it_default_postdec | C13 | | mustverify
opt::option<int>::iterator a{}; a--;
@ it_default_index | C13 | | mustverify
opt::option<int>::iterator a{}; (void)a[0];
@ it_default_seek | C13 | | mustverify
opt::option<int>::iterator a{}; a += 1;
@ it_default_seek_minus | C13 | | mustverify
opt::option<int>::iterator a{}; a -= 1;
@ it_default_plus | C13 | | mustverify
opt::option<int>::iterator a{}; (void)(a + 1);
@ it_default_rplus | C13 | | mustverify
opt::option<int>::iterator a{}; (void)(1 + a);
@ it_default_minus | C13 | | mustverify
opt::option<int>::iterator a{}; (void)(a - 1);
@ it_stays_in_place | C13 C01 | B& x, B& y | throws
O a; if (nd()) a.emplace(x); a.emplace(y); auto i = a.begin(); MUST(&*i == &a.get()); MUST(a.end() - i == 1);
@ it_single_writes | C13 | int v [-5..5], int w [-5..5]
opt::option<int> a(v); *a.begin() = w; MUST(a.has_value()); MUST(*a == w); a.begin()[0] = v; MUST(*a == v);
'''

LK_PRE = r'''
struct M { U64 m; };
struct Seq { M* e; size_t n; size_t last; int calls; M junk;
    size_t size() const noexcept { return n; }
    M& operator[](size_t i) noexcept { last = i; ++calls; MUSTIN(i < n); return *e; }
    M& front() noexcept { ++calls; MUSTIN(n != 0); return *e; }
    M& back() noexcept { ++calls; MUSTIN(n != 0); return *e; } };
struct CSeq { M* e; size_t n; mutable size_t last; mutable int calls;
    size_t size() const noexcept { return n; }
    const M& operator[](size_t i) const noexcept { last = i; ++calls; MUSTIN(i < n); return *e; }
    const M& front() const noexcept { ++calls; MUSTIN(n != 0); return *e; }
    const M& back() const noexcept { ++calls; MUSTIN(n != 0); return *e; } };
struct VSeq { M e; size_t n; mutable int calls; size_t size() const noexcept { return n; } M operator[](size_t i) const noexcept { ++calls; MUSTIN(i < n); return e; } };
struct QSeq { M* l; M* r; M* cl; M* cr; size_t n; mutable int how = 0; size_t size() const noexcept { return n; }
    M& operator[](size_t i) & noexcept { how = 1; MUSTIN(i < n); return *l; } M& operator[](size_t i) && noexcept { how = 2; MUSTIN(i < n); return *r; } const M& operator[](size_t i) const& noexcept { how = 3; MUSTIN(i < n); return *cl; } const M& operator[](size_t i) const&& noexcept { how = 4; MUSTIN(i < n); return *cr; }
    M& front() & noexcept { how = 1; MUSTIN(n != 0); return *l; } M& front() && noexcept { how = 2; MUSTIN(n != 0); return *r; } const M& front() const& noexcept { how = 3; MUSTIN(n != 0); return *cl; } const M& front() const&& noexcept { how = 4; MUSTIN(n != 0); return *cr; }
    M& back() & noexcept { how = 1; MUSTIN(n != 0); return *l; } M& back() && noexcept { how = 2; MUSTIN(n != 0); return *r; } const M& back() const& noexcept { how = 3; MUSTIN(n != 0); return *cl; } const M& back() const&& noexcept { how = 4; MUSTIN(n != 0); return *cr; } };
struct PRef { M* p; int tag; };
struct PSeq { M* e; size_t n; size_t last; int calls; size_t size() const noexcept { return n; } PRef operator[](size_t i) noexcept { last = i; ++calls; MUSTIN(i < n); return PRef{e, 7}; } PRef front() noexcept { ++calls; MUSTIN(n != 0); return PRef{e, 8}; } PRef back() noexcept { ++calls; MUSTIN(n != 0); return PRef{e, 9}; } };
struct NSeq { M* e; unsigned char n; size_t last; unsigned char size() const noexcept { return n; } M& operator[](size_t i) noexcept { last = i; MUSTIN(i < n); return *e; } M& front() noexcept { MUSTIN(n != 0); return *e; } M& back() noexcept { MUSTIN(n != 0); return *e; } };
struct Key { int v; };
struct KMap { using mapped_type = M; struct it { std::pair<const Key, M>* p; bool operator==(const it& o) const noexcept { return p == o.p; } bool operator!=(const it& o) const noexcept { return p != o.p; } std::pair<const Key, M>* operator->() const noexcept { MUSTIN(p != nullptr); return p; } std::pair<const Key, M>& operator*() const noexcept { MUSTIN(p != nullptr); return *p; } };
    struct cit { const std::pair<const Key, M>* p; bool operator==(const cit& o) const noexcept { return p == o.p; } const std::pair<const Key, M>* operator->() const noexcept { MUSTIN(p != nullptr); return p; } const std::pair<const Key, M>& operator*() const noexcept { MUSTIN(p != nullptr); return *p; } };
    std::pair<const Key, M>* entry; mutable int how; mutable const void* who;
    it find(Key& k) { how = 1; who = &k; return it{entry}; } it find(const Key& k) { how = 2; who = &k; return it{entry}; } it find(Key&& k) { how = 3; who = &k; return it{entry}; } it find(const Key&& k) { how = 4; who = &k; return it{entry}; } it end() noexcept { return it{nullptr}; }
    cit find(const Key& k) const { how = 12; who = &k; return cit{entry}; } cit find(Key&& k) const { how = 13; who = &k; return cit{entry}; } cit end() const noexcept { return cit{nullptr}; } };
struct VSet { struct it { int p; bool operator==(const it& o) const noexcept { return p == o.p; } M operator*() const noexcept { MUSTIN(p != -1); return M{U64(p)}; } }; int at; it find(int) { return it{at}; } it end() const noexcept { return it{-1}; } };
struct Map { using mapped_type = M; struct it { std::pair<const int, M>* p; bool operator==(const it& o) const noexcept { return p == o.p; } bool operator!=(const it& o) const noexcept { return p != o.p; } std::pair<const int, M>* operator->() const noexcept { MUSTIN(p != nullptr); return p; } std::pair<const int, M>& operator*() const noexcept { MUSTIN(p != nullptr); return *p; } };
    std::pair<const int, M>* entry; int asked; int finds; it find(int k) { asked = k; ++finds; return it{nd() ? entry : nullptr}; } it end() const noexcept { return it{nullptr}; } };
struct Set { struct it { M* p; bool operator==(const it& o) const noexcept { return p == o.p; } const M& operator*() const noexcept { MUSTIN(p != nullptr); return *p; } const M* operator->() const noexcept { MUSTIN(p != nullptr); return p; } };
    M* entry; int asked; int finds; it find(int k) { asked = k; ++finds; return it{nd() ? entry : nullptr}; } it end() const noexcept { return it{nullptr}; } };
struct Agg { M a, b, c; };
template<size_t I> M& get(Agg& x) noexcept { if constexpr (I == 0) return x.a; else if constexpr (I == 1) return x.b; else return x.c; }
template<size_t I> const M& get(const Agg& x) noexcept { if constexpr (I == 0) return x.a; else if constexpr (I == 1) return x.b; else return x.c; }
template<size_t I> M&& get(Agg&& x) noexcept { return static_cast<M&&>(get<I>(x)); }
template<class T> using opt_t = opt::option<T>;
#define SAME(e, ...) static_assert(std::is_same_v<decltype(e), __VA_ARGS__>, #e)
'''
LK = r'''
@ at_index | C12 C08 | size_t i [0..0xffffffffffffffff], size_t n [0..0x7fffffffffffffff]
M m{}; Seq s{&m, n, 0, 0, {}}; auto r = opt::at(s, i); SAME(r, opt_t<M&>); MUST(r.has_value() == (i < n)); MUST(s.calls == (i < n ? 1 : 0)); if (r.has_value()) { MUST(s.last == i); MUST(&r.get() == &m); }
@ at_index_const | C12 C08 | size_t i [0..0xffffffffffffffff], size_t n [0..0x7fffffffffffffff]
M m{}; const CSeq s{&m, n, 0, 0}; auto r = opt::at(s, i); SAME(r, opt_t<const M&>); MUST(r.has_value() == (i < n)); MUST(s.calls == (i < n ? 1 : 0)); if (r.has_value()) { MUST(s.last == i); MUST(&r.get() == &m); }
@ at_index_rvalue | C12 C08 | size_t i [0..0xffffffffffffffff], size_t n [0..0x7fffffffffffffff]
M m{}; Seq s{&m, n, 0, 0, {}}; auto r = opt::at(std::move(s), i); SAME(r, opt_t<M&&>); MUST(r.has_value() == (i < n)); if (r.has_value()) { MUST(s.last == i); MUST(&r.get() == &m); } MUST(s.calls == (i < n ? 1 : 0));
@ front | C12 C08 | size_t n [0..0x7fffffffffffffff]
M m{}; Seq s{&m, n, 0, 0, {}}; auto r = opt::at_front(s); SAME(r, opt_t<M&>); MUST(r.has_value() == (n != 0)); MUST(s.calls == (n != 0 ? 1 : 0)); if (r) { MUST(&r.get() == &m); }
@ front_const | C12 C08 | size_t n [0..0x7fffffffffffffff]
M m{}; const CSeq s{&m, n, 0, 0}; auto r = opt::at_front(s); SAME(r, opt_t<const M&>); MUST(r.has_value() == (n != 0)); MUST(s.calls == (n != 0 ? 1 : 0)); if (r) { MUST(&r.get() == &m); }
@ front_rvalue | C12 C08 | size_t n [0..0x7fffffffffffffff]
M m{}; Seq s{&m, n, 0, 0, {}}; auto r = opt::at_front(std::move(s)); SAME(r, opt_t<M&&>); MUST(r.has_value() == (n != 0)); if (r.has_value()) { MUST(&r.get() == &m); }
@ back | C12 C08 | size_t n [0..0x7fffffffffffffff]
M m{}; Seq s{&m, n, 0, 0, {}}; auto r = opt::at_back(s); SAME(r, opt_t<M&>); MUST(r.has_value() == (n != 0)); MUST(s.calls == (n != 0 ? 1 : 0)); if (r) { MUST(&r.get() == &m); }
@ back_const | C12 C08 | size_t n [0..0x7fffffffffffffff]
M m{}; const CSeq s{&m, n, 0, 0}; auto r = opt::at_back(s); SAME(r, opt_t<const M&>); MUST(r.has_value() == (n != 0)); MUST(s.calls == (n != 0 ? 1 : 0)); if (r) { MUST(&r.get() == &m); }
@ back_rvalue | C12 C08 | size_t n [0..0x7fffffffffffffff]
M m{}; Seq s{&m, n, 0, 0, {}}; auto r = opt::at_back(std::move(s)); SAME(r, opt_t<M&&>); MUST(r.has_value() == (n != 0)); if (r.has_value()) { MUST(&r.get() == &m); }
@ at_category | C12 C08 | size_t i [0..0xffffffffffffffff], size_t n [0..0x7fffffffffffffff]
M a{}, b{}, c{}, d{}; QSeq s{&a, &b, &c, &d, n}; bool in = i < n; auto r = opt::at(s, i); MUST(r.has_value() == in); if (in) { MUST(s.how == 1 && &r.get() == &a); } auto q = opt::at(std::move(s), i); MUST(q.has_value() == in); if (in) { MUST(s.how == 2 && &q.get() == &b); } auto t = opt::at(static_cast<const QSeq&>(s), i); MUST(t.has_value() == in); if (in) { MUST(s.how == 3 && &t.get() == &c); } auto u = opt::at(static_cast<const QSeq&&>(s), i); MUST(u.has_value() == in); if (in) { MUST(s.how == 4 && &u.get() == &d); }
@ front_category | C12 C08 | size_t n [0..0x7fffffffffffffff]
M a{}, b{}, c{}, d{}; QSeq s{&a, &b, &c, &d, n}; bool in = n != 0; auto r = opt::at_front(s); MUST(r.has_value() == in); if (in) { MUST(s.how == 1 && &r.get() == &a); } auto q = opt::at_front(std::move(s)); MUST(q.has_value() == in); if (in) { MUST(s.how == 2 && &q.get() == &b); } auto t = opt::at_front(static_cast<const QSeq&>(s)); MUST(t.has_value() == in); if (in) { MUST(s.how == 3 && &t.get() == &c); } auto u = opt::at_front(static_cast<const QSeq&&>(s)); MUST(u.has_value() == in); if (in) { MUST(s.how == 4 && &u.get() == &d); }
@ back_category | C12 C08 | size_t n [0..0x7fffffffffffffff]
M a{}, b{}, c{}, d{}; QSeq s{&a, &b, &c, &d, n}; bool in = n != 0; auto r = opt::at_back(s); MUST(r.has_value() == in); if (in) { MUST(s.how == 1 && &r.get() == &a); } auto q = opt::at_back(std::move(s)); MUST(q.has_value() == in); if (in) { MUST(s.how == 2 && &q.get() == &b); } auto t = opt::at_back(static_cast<const QSeq&>(s)); MUST(t.has_value() == in); if (in) { MUST(s.how == 3 && &t.get() == &c); } auto u = opt::at_back(static_cast<const QSeq&&>(s)); MUST(u.has_value() == in); if (in) { MUST(s.how == 4 && &u.get() == &d); }
@ front_back_array | C12 |
std::array<M, 3> a{}; MUST(&opt::at_front(a).get() == &a[0]); MUST(&opt::at_back(a).get() == &a[2]); const auto& c = a; MUST(&opt::at_front(c).get() == &a[0]); MUST(&opt::at_back(c).get() == &a[2]); auto f = opt::at_front(std::move(a)); auto g = opt::at_back(std::move(a)); MUST(&f.get_unchecked() == &a[0]); MUST(&g.get_unchecked() == &a[2]);
@ at_array | C12 | size_t i [0..0xffffffffffffffff]
std::array<M, 3> a{}; auto r = opt::at(a, i); MUST(r.has_value() == (i < 3)); if (i == 0) { MUST(&r.get() == &a[0]); } if (i == 1) { MUST(&r.get() == &a[1]); } if (i == 2) { MUST(&r.get() == &a[2]); }
@ at_by_value | C12 | size_t i [0..0xffffffffffffffff], size_t n [0..0x7fffffffffffffff], U64 v [0..0xffffffffffffffff]
const VSeq s{M{v}, n, 0}; auto r = opt::at(s, i); SAME(r, opt_t<M>); MUST(r.has_value() == (i < n)); MUST(s.calls == (i < n ? 1 : 0)); if (r.has_value()) { MUST(r->m == v); }
@ at_by_proxy | C12 | size_t i [0..0xffffffffffffffff], size_t n [0..0x7fffffffffffffff]
M m{}; PSeq s{&m, n, 0, 0}; auto r = opt::at(s, i); SAME(r, opt_t<PRef>); MUST(r.has_value() == (i < n)); MUST(s.calls == (i < n ? 1 : 0)); if (r.has_value()) { MUST(s.last == i); MUST(r->p == &m); MUST(r->tag == 7); }
@ front_back_by_proxy | C12 | size_t n [0..0x7fffffffffffffff]
M m{}; PSeq s{&m, n, 0, 0}; auto r = opt::at_front(s); auto q = opt::at_back(s); SAME(r, opt_t<PRef>); SAME(q, opt_t<PRef>); MUST(r.has_value() == (n != 0)); MUST(q.has_value() == (n != 0)); MUST(s.calls == (n != 0 ? 2 : 0)); if (n) { MUST(r->p == &m && r->tag == 8); MUST(q->p == &m && q->tag == 9); }
@ at_narrow_size | C12 | size_t i [0..0xffffffffffffffff], int n [0..255]
M m{}; NSeq s{&m, (unsigned char)n, 0}; auto r = opt::at(s, i); MUST(r.has_value() == (i < size_t(n))); if (r.has_value()) { MUST(s.last == i); MUST(&r.get() == &m); } MUST(opt::at_front(s).has_value() == (n != 0)); MUST(opt::at_back(s).has_value() == (n != 0));
@ lookup_key_category | C12 C08 | int k [-9..9]
std::pair<const Key, M> e{Key{1}, {}}; KMap m{nd() ? &e : nullptr, 0, nullptr}; Key x{k}; const Key y{k}; auto r = opt::lookup(m, x); MUST(m.how == 1 && m.who == &x); auto q = opt::lookup(m, y); MUST(m.how == 2 && m.who == &y); auto t = opt::lookup(m, std::move(x)); MUST(m.how == 3 && m.who == &x); auto u = opt::lookup(m, std::move(y)); MUST(m.how == 4 && m.who == &y); bool in = m.entry != nullptr; MUST(r.has_value() == in); MUST(q.has_value() == in); MUST(t.has_value() == in); MUST(u.has_value() == in); if (in) { MUST(&r.get() == &e.second); MUST(&q.get() == &e.second); MUST(&t.get() == &e.second); MUST(&u.get() == &e.second); }
@ lookup_const_map | C12 C08 | int k [-9..9]
std::pair<const Key, M> e{Key{1}, {}}; const KMap m{nd() ? &e : nullptr, 0, nullptr}; Key x{k}; auto r = opt::lookup(m, static_cast<const Key&>(x)); SAME(r, opt_t<const M&>); MUST(m.how == 12 && m.who == &x); auto q = opt::lookup(m, std::move(x)); SAME(q, opt_t<const M&>); MUST(m.how == 13 && m.who == &x); bool in = m.entry != nullptr; MUST(r.has_value() == in); MUST(q.has_value() == in); if (in) { MUST(&r.get() == &e.second); MUST(&q.get() == &e.second); }
@ lookup_by_value | C12 | int at [-1..100]
VSet m{at}; auto r = opt::lookup(m, 3); SAME(r, opt_t<M>); MUST(r.has_value() == (at != -1)); if (at != -1) { MUST(r->m == U64(at)); }
@ lookup_map | C12 C08 | int k [-9..9]
std::pair<const int, M> e{1, {}}; Map m{&e, 0, 0}; auto r = opt::lookup(m, k); SAME(r, opt_t<M&>); MUST(m.finds == 1); MUST(m.asked == k); if (r.has_value()) { MUST(&r.get() == &e.second); }
@ lookup_map_both | C12 |
std::pair<const int, M> e{1, {}}; struct Mp : Map { it find(int) { return it{entry}; } } m; m.entry = &e; auto r = opt::lookup(m, 1); MUST(r.has_value() && &r.get() == &e.second); m.entry = nullptr; auto q = opt::lookup(m, 1); MUST(!q.has_value());
@ lookup_set | C12 | int k [-9..9]
M e{}; Set m{&e, 0, 0}; auto r = opt::lookup(m, k); SAME(r, opt_t<const M&>); MUST(m.finds == 1); MUST(m.asked == k); if (r.has_value()) { MUST(&r.get() == &e); }
@ lookup_set_both | C12 |
M e{}; struct Sp : Set { it find(int) { return it{entry}; } } m; m.entry = &e; auto r = opt::lookup(m, 1); MUST(r.has_value() && &r.get() == &e); m.entry = nullptr; auto q = opt::lookup(m, 1); MUST(!q.has_value());
@ get_tuple | C12 C08 | 
using T = std::tuple<M, int, M>; opt_t<T> o; if (nd()) o.emplace(M{1}, 2, M{3}); bool e = o.has_value(); auto a = opt::get<0>(o); auto b = opt::get<1>(o); auto c = opt::get<2>(o); SAME(a, opt_t<M&>); SAME(b, opt_t<int&>); MUST(a.has_value() == e); MUST(b.has_value() == e); MUST(c.has_value() == e); if (e) { MUST(&a.get() == &std::get<0>(*o)); MUST(&b.get() == &std::get<1>(*o)); MUST(&c.get() == &std::get<2>(*o)); }
@ get_tuple_const | C12 C08 | 
using T = std::tuple<M, int, M>; opt_t<T> o; if (nd()) o.emplace(M{1}, 2, M{3}); const auto& k = o; bool e = o.has_value(); auto a = opt::get<0>(k); auto b = opt::get<1>(k); auto c = opt::get<2>(k); SAME(a, opt_t<const M&>); SAME(b, opt_t<const int&>); MUST(a.has_value() == e); MUST(b.has_value() == e); MUST(c.has_value() == e); if (e) { MUST(&a.get() == &std::get<0>(*o)); MUST(&b.get() == &std::get<1>(*o)); MUST(&c.get() == &std::get<2>(*o)); }
@ get_tuple_rvalue | C12 C08 | 
using T = std::tuple<M, int, M>; opt_t<T> o; if (nd()) o.emplace(M{1}, 2, M{3}); bool e = o.has_value(); auto a = opt::get<0>(std::move(o)); auto c = opt::get<2>(std::move(o)); SAME(a, opt_t<M&&>); MUST(a.has_value() == e); MUST(c.has_value() == e); if (e) { MUST(&a.get() == &std::get<0>(*o)); MUST(&c.get() == &std::get<2>(*o)); } auto d = opt::get<1>(std::move(static_cast<const opt_t<T>&>(o))); SAME(d, opt_t<const int&&>); MUST(d.has_value() == e); if (e) { MUST(&d.get() == &std::get<1>(*o)); } MUST(o.has_value() == e);
@ get_tuple_type | C12 C08 | 
using T = std::tuple<M, int, long>; opt_t<T> o; if (nd()) o.emplace(M{1}, 2, 3L); const auto& k = o; bool e = o.has_value(); auto a = opt::get<M>(o); auto b = opt::get<int>(k); auto c = opt::get<long>(std::move(o)); SAME(a, opt_t<M&>); SAME(b, opt_t<const int&>); SAME(c, opt_t<long&&>); MUST(a.has_value() == e); MUST(b.has_value() == e); MUST(c.has_value() == e); if (e) { MUST(&a.get() == &std::get<0>(*o)); MUST(&b.get() == &std::get<1>(*o)); MUST(&c.get() == &std::get<2>(*o)); } auto d = opt::get<int>(std::move(k)); SAME(d, opt_t<const int&&>); MUST(d.has_value() == e); if (e) { MUST(&d.get() == &std::get<1>(*o)); }
@ get_pair | C12 C08 |
using T = std::pair<M, int>; opt_t<T> o; if (nd()) o.emplace(M{1}, 2); const auto& k = o; bool e = o.has_value(); auto a = opt::get<0>(o); auto b = opt::get<1>(k); auto c = opt::get<M>(o); auto d = opt::get<int>(std::move(o)); MUST(a.has_value() == e); MUST(b.has_value() == e); MUST(c.has_value() == e); MUST(d.has_value() == e); if (e) { MUST(&a.get() == &o->first); MUST(&b.get() == &o->second); MUST(&c.get() == &o->first); MUST(&d.get() == &o->second); }
@ get_array | C12 C08 |
using T = std::array<M, 2>; opt_t<T> o; if (nd()) o = T{}; const auto& k = o; bool e = o.has_value(); auto a = opt::get<0>(o); auto b = opt::get<1>(k); auto c = opt::get<1>(std::move(o)); MUST(a.has_value() == e); MUST(b.has_value() == e); MUST(c.has_value() == e); if (e) { MUST(&a.get() == &(*o)[0]); MUST(&b.get() == &(*o)[1]); MUST(&c.get() == &(*o)[1]); }
@ get_tuple_like | C12 C08 |
opt_t<Agg> o; if (nd()) o = Agg{{1}, {2}, {3}}; const auto& k = o; bool e = o.has_value(); auto a = opt::get<0>(o); auto b = opt::get<1>(k); auto c = opt::get<2>(std::move(o)); SAME(a, opt_t<M&>); SAME(b, opt_t<const M&>); SAME(c, opt_t<M&&>); MUST(a.has_value() == e); MUST(b.has_value() == e); MUST(c.has_value() == e); if (e) { MUST(&a.get() == &o->a); MUST(&b.get() == &o->b); MUST(&c.get() == &o->c); }
@ get_tuple_refs | C12 C08 | 
M m{}; int i = 0; using T = std::tuple<M&, const int&>; opt_t<T> o; if (nd()) o.emplace(m, i); const auto& k = o; auto a = opt::get<0>(o); auto b = opt::get<1>(k); bool e = o.has_value(); MUST(a.has_value() == e); MUST(b.has_value() == e); if (e) { MUST(&a.get() == &m); MUST(&b.get() == &i); }
@ get_variant | C12 C08 |
using V = std::variant<int, M, long>; V v; if (nd()) v = M{4}; else if (nd()) v = 5L; const V& k = v; auto a = opt::get<0>(v); auto b = opt::get<1>(v); auto c = opt::get<2>(k); auto d = opt::get<1>(std::move(v)); auto f = opt::get<0>(std::move(k)); SAME(a, opt_t<int&>); SAME(c, opt_t<const long&>); SAME(d, opt_t<M&&>); SAME(f, opt_t<const int&&>); MUST(a.has_value() == (v.index() == 0)); MUST(b.has_value() == (v.index() == 1)); MUST(c.has_value() == (v.index() == 2)); MUST(d.has_value() == (v.index() == 1)); MUST(f.has_value() == (v.index() == 0)); if (a) { MUST(&a.get() == std::get_if<0>(&v)); MUST(&f.get() == std::get_if<0>(&v)); } if (b) { MUST(&b.get() == std::get_if<1>(&v)); MUST(&d.get() == std::get_if<1>(&v)); } if (c) { MUST(&c.get() == std::get_if<2>(&v)); }
@ get_variant_type | C12 C08 |
using V = std::variant<int, M, long>; V v; if (nd()) v = M{4}; else if (nd()) v = 5L; const V& k = v; auto a = opt::get<int>(v); auto b = opt::get<M>(k); auto c = opt::get<long>(std::move(v)); auto d = opt::get<M>(std::move(k)); SAME(a, opt_t<int&>); SAME(b, opt_t<const M&>); SAME(c, opt_t<long&&>); SAME(d, opt_t<const M&&>); MUST(a.has_value() == (v.index() == 0)); MUST(b.has_value() == (v.index() == 1)); MUST(c.has_value() == (v.index() == 2)); MUST(d.has_value() == (v.index() == 1)); if (a) { MUST(&a.get() == std::get_if<0>(&v)); } if (b) { MUST(&b.get() == std::get_if<1>(&v)); MUST(&d.get() == std::get_if<1>(&v)); } if (c) { MUST(&c.get() == std::get_if<2>(&v)); }
@ get_variant_valueless | C12 |
using V = std::variant<int, Th>; V v; try { v.emplace<1>(1); } catch (...) {} bool e = v.valueless_by_exception(); auto a = opt::get<0>(v); auto b = opt::get<1>(v); auto c = opt::get<int>(v); MUST(!a.has_value()); MUST(!c.has_value()); MUST(b.has_value() == !e);
'''

FN = r'''
@ map_member_fn | C07 C08 | B& x | throws
O a; if (nd()) a.emplace(x); bool e = a.has_value(); RESET; auto r = a.map(&B::acc); SAME(r, opt_t<U64&>); CALLS(e ? 1 : 0); MUST(r.has_value() == e);
@ map_member_rv | C07 C08 | B& x | throws
O a; if (nd()) a.emplace(x); bool e = a.has_value(); RESET; auto r = std::move(a).map(&B::rv); SAME(r, opt_t<B&&>); CALLS(e ? 1 : 0); MUST(r.has_value() == e); COPIES(0); MOVES(0);
@ map_data | C07 C08 | B& x | throws
O a; if (nd()) a.emplace(x); bool e = a.has_value(); RESET; auto r = a.map(&B::payload); SAME(r, opt_t<U64&>); MUST(r.has_value() == e); if (e) { MUST(&r.get() == &a->payload); } const O& c = a; auto q = c.map(&B::payload); SAME(q, opt_t<const U64&>); MUST(q.has_value() == e); if (e) { MUST(&q.get() == &a->payload); } auto z = std::move(a).map(&B::payload); SAME(z, opt_t<U64&&>); MUST(z.has_value() == e); NOEV;
@ inspect_member_fn | C07 C08 | B& x | throws
O a; if (nd()) a.emplace(x); bool e = a.has_value(); RESET; O& r = a.inspect(&B::obs); MUST(&r == &a); CALLS(e ? 1 : 0);
@ inspect_member_mut | C07 C08 | B& x | throws
O a; if (nd()) a.emplace(x); bool e = a.has_value(); RESET; a.inspect(&B::mut); CALLS(e ? 1 : 0); MUST(a.has_value() == e);
@ has_value_and_member | C07 C17 | B& x | throws
O a; if (nd()) a.emplace(x); bool e = a.has_value(); RESET; bool r = a.has_value_and(&B::pred); CALLS(e ? 1 : 0); if (!e) { MUST(!r); }
@ take_if_member | C07 C04 | B& x | throws
O a; if (nd()) a.emplace(x); bool e = a.has_value(); RESET; O r = a.take_if(&B::pred); CALLS(e ? 1 : 0); MUST((r.has_value() || a.has_value()) == e); MUST(!(r.has_value() && a.has_value()));
@ filter_member | C07 C08 | B& x | throws
O a; if (nd()) a.emplace(x); bool e = a.has_value(); RESET; O r = a.filter(&B::pred); CALLS(e ? 1 : 0); if (r.has_value()) { MUST(e); COPIES(1); } else { COPIES(0); } MUST(a.has_value() == e);
@ map_or_member | C07 | B& x | throws
O a; if (nd()) a.emplace(x); bool e = a.has_value(); RESET; U64 r = a.map_or(U64(7), &B::payload); MUST(e || r == 7); if (e) { MUST(r == a->payload); } NOEV;
@ fnptr | C07 | int v [-5..5] | throws
opt_t<int> a; if (nd()) a = v; bool e = a.has_value(); int (*f)(int) = fi; auto r = a.map(f); CALLS(e ? 1 : 0); MUST(r.has_value() == e);
@ refwrap_fn | C07 | int v [-5..5]
opt_t<int> a; if (nd()) a = v; bool e = a.has_value(); int n = 0; auto f = [&n](int x) { ++n; return x + 1; }; auto r = a.map(std::ref(f)); MUST(n == (e ? 1 : 0)); MUST(r.has_value() == e); if (e) { MUST(*r == v + 1); }
@ fn_state | C07 C08 | int v [-5..5]
opt_t<int> a; if (nd()) a = v; bool e = a.has_value(); int n = 0, s = 0; a.inspect([&](int& x) { ++n; s = x; x = 9; }); MUST(n == (e ? 1 : 0)); if (e) { MUST(s == v); MUST(*a == 9); } MUST(a.has_value() == e);
@ in_place_factories | C03 C04 C11 C08 | int v [-5..5]
IlArg z{v}; opt_t<Ip> a(std::in_place, v, IlArg{2}); MUST(a->moves == 0 && a->how == 2); opt_t<Ip> b(v, z); MUST(b->moves == 0 && b->how == 1); opt_t<Ip> c; c.emplace(v, std::move(z)); MUST(c->moves == 0 && c->how == 2); c.emplace(v, z); MUST(c->moves == 0 && c->how == 1); opt_t<Ip> d; d.try_emplace(v, z); MUST(d->moves == 0 && d->how == 1); auto f = opt::make_option<Ip>(v, z); MUST(f->moves == 0 && f->how == 1); auto g = opt::make_option<Ip>(v, std::move(z)); MUST(g->moves == 0 && g->how == 2); MUST(opt_t<Ip>().value_or_construct(v, std::move(z)).how == 2); const opt_t<Ip> h; MUST(h.value_or_construct(v, z).how == 1);
@ in_place_lists | C03 C11 C08 C07 | int v [-5..5]
IlArg z{v}; opt_t<Ip> a(std::in_place, {1, 2, 3}, IlArg{2}); MUST(a->moves == 0 && a->how == 12 && a->n == 3); opt_t<Ip> b(std::in_place, {1, 2}, z); MUST(b->moves == 0 && b->how == 11 && b->n == 2); auto f = opt::make_option<Ip>({1}, z); MUST(f->moves == 0 && f->how == 11 && f->n == 1); auto g = opt::make_option<Ip>({1, 2}, std::move(z)); MUST(g->moves == 0 && g->how == 12); auto k = opt::make_option<Ip>({1, 2, 3, 4}); MUST(k->moves == 0 && k->how == 13 && k->n == 4); MUST(opt_t<Ip>().value_or_construct({1, 2}, std::move(z)).how == 12); const opt_t<Ip> h; Ip w = h.value_or_construct({1, 2}, z); MUST(w.how == 11 && w.n == 2); Ip w2 = opt_t<Ip>().value_or_construct({1, 2}, z); MUST(w2.how == 11 && w2.n == 2); Ip w3 = h.value_or_construct({1, 2}, std::move(z)); MUST(w3.how == 12);
@ values_int | C07 C03 C06 | int v [-5..5], int w [-9..9]
opt_t<int> a; if (nd()) a = v; bool e = a.has_value(); MUST(a.value_or(w) == (e ? v : w)); MUST(a.value_or_construct(w) == (e ? v : w)); MUST(std::move(a).value_or_construct(w) == (e ? v : w)); MUST(a.map_or(w, [](int x) { return x; }) == (e ? v : w)); MUST(a.map_or_else([&] { return w; }, [](int x) { return x; }) == (e ? v : w)); int n = 0; a.map([&](int x) { n = x; return 0; }); if (e) { MUST(n == v); } auto r = a.map([](int x) { return x + 1; }); MUST(r.has_value() == e); if (e) { MUST(*r == v + 1); } auto q = a.and_then([&](int x) { return x == w ? opt_t<int>(x) : opt_t<int>(); }); MUST(q.has_value() == (e && v == w)); auto f = a.filter([&](int x) { return x == w; }); MUST(f.has_value() == (e && v == w)); auto o = a.or_else([&] { return opt_t<int>(w); }); MUST(o.has_value()); MUST(*o == (e ? v : w)); MUST(a.has_value() == e); if (e) { MUST(*a == v); }
@ values_or_default | C07 C03 | int v [-5..5]
opt_t<int> a; if (nd()) a = v; bool e = a.has_value(); MUST(a.value_or_construct() == (e ? v : 0)); MUST(a.has_value_and([&](int x) { return x == v; }) == e); MUST(a.has_value() == e);
@ take_values | C04 C03 | int v [-5..5]
opt_t<int> a; if (nd()) a = v; bool e = a.has_value(); auto r = a.take(); MUST(!a.has_value()); MUST(r.has_value() == e); if (e) { MUST(*r == v); } int& t = r.try_emplace(77); MUST(&t == &r.get()); MUST(t == (e ? v : 77)); int& u = r.emplace(78); MUST(u == 78); MUST(*r == 78);
@ swap_values | C05 C03 | int v [-5..5], int w [-9..9]
opt_t<int> a, b; if (nd()) a = v; if (nd()) b = w; bool ea = a.has_value(), eb = b.has_value(); a.swap(b); MUST(a.has_value() == eb); MUST(b.has_value() == ea); if (eb) { MUST(*a == w); } if (ea) { MUST(*b == v); } using std::swap; swap(a, b); MUST(a.has_value() == ea); MUST(b.has_value() == eb); if (ea) { MUST(*a == v); } if (eb) { MUST(*b == w); } opt::swap(a, b); MUST(a.has_value() == eb); if (eb) { MUST(*a == w); }
@ swap_hetero | C05 C03 C04 | int v [-5..5], int w [-9..9]
opt_t<Qa> a; opt_t<Qb> b; if (nd()) a = v; bool ea = a.has_value(); if (nd()) { b = w; } bool eb = b.has_value(); a.swap(b); MUST(a.has_value() == eb); MUST(b.has_value() == ea); if (eb) { MUST(a->v == w); } if (ea) { MUST(b->v == v); } opt::swap(b, a); MUST(a.has_value() == ea); MUST(b.has_value() == eb); if (ea) { MUST(a->v == v); } if (eb) { MUST(b->v == w); }
@ conv_nothrow_Oc | C08 C03 C11 | int v [-5..5]
Of z(v); opt_t<Of> o(z); const opt_t<Of> k(z); opt_t<Oc> a(k); MUST(a->how == 1 && a->v == v); opt_t<Oc> b(o); MUST(b->how == 1); opt_t<Oc> c(std::move(o)); MUST(c->how == 2 && c->v == v); opt_t<Oc> d(z); MUST(d->how == 1); opt_t<Oc> e(std::move(z)); MUST(e->how == 2); opt_t<Oc> f; f = k; MUST(f->how == 1); f = k; MUST(f->how == 3); f = std::move(o); MUST(f->how == 4); f.reset(); f = std::move(o); MUST(f->how == 2); f = z; MUST(f->how == 3); f = std::move(z); MUST(f->how == 4); f.reset(); f = std::move(z); MUST(f->how == 2); f.emplace(z); MUST(f->how == 1); f.emplace(std::move(z)); MUST(f->how == 2); opt_t<Oc> g(std::in_place, std::move(z)); MUST(g->how == 2); MUST(opt::option_cast<Oc>(k)->how == 1); MUST(opt::option_cast<Oc>(o)->how == 1); MUST(opt::option_cast<Oc>(std::move(o))->how == 2); MUST(opt::option_cast<Oc>(opt_t<Of>(v))->how == 2); MUST(opt::make_option<Oc>(std::move(z))->how == 2); const opt_t<Oc> h; MUST(h.value_or(std::move(z)).how == 2); MUST(h.value_or(z).how == 1); MUST(opt_t<Oc>().value_or(std::move(z)).how == 2); MUST(h.value_or_construct(std::move(z)).how == 2); MUST(opt_t<Oc>().value_or_construct(z).how == 1); f.reset(); f.try_emplace(std::move(z)); MUST(f->how == 2);
@ own_nothrow_Oc | C08 C03 | int v [-5..5]
Of z(v); opt_t<Of> o(z); MUST(o->moves == 0); opt_t<Of> p(o); MUST(p->moves == 0); opt_t<Of> q(std::move(o)); MUST(q->moves == 1); opt_t<Of> r(std::move(z)); MUST(r->moves == 1); r = o; MUST(r->moves == 0); r.reset(); r = std::move(o); MUST(r->moves == 1); r.reset(); r = std::move(z); MUST(r->moves == 1); MUST(opt::make_option(z)->moves == 0); MUST(opt::make_option(std::move(z))->moves == 1); MUST(o.value_or(v).moves == 0); MUST(std::move(o).value_or(v).moves == 1); opt_t<Of> t = o.take(); MUST(t->moves == 1); auto u = opt::zip(std::move(t)); MUST(std::get<0>(*u).moves >= 2); auto w = t.filter([](const Of&) { return true; }); MUST(w->moves == 1); auto x = std::move(t).filter([](const Of&) { return true; }); MUST(x->moves == 2); int m = std::move(t).map([](Of&& f) { Of g(std::move(f)); return g.moves; }).value(); MUST(m == 2); m = t.map([](auto&& f) { Of g(std::forward<decltype(f)>(f)); return g.moves; }).value(); MUST(m == 1);
@ conv_nothrow_Oe | C08 C03 C11 | int v [-5..5]
Of z(v); opt_t<Of> o(z); const opt_t<Of> k(z); opt_t<Oe> a(k); MUST(a->how == 1 && a->v == v); opt_t<Oe> b(o); MUST(b->how == 1); opt_t<Oe> c(std::move(o)); MUST(c->how == 2 && c->v == v); opt_t<Oe> d(z); MUST(d->how == 1); opt_t<Oe> e(std::move(z)); MUST(e->how == 2); opt_t<Oe> f; f = k; MUST(f->how == 1); f = k; MUST(f->how == 3); f = std::move(o); MUST(f->how == 4); f.reset(); f = std::move(o); MUST(f->how == 2); f = z; MUST(f->how == 3); f = std::move(z); MUST(f->how == 4); f.reset(); f = std::move(z); MUST(f->how == 2); f.emplace(z); MUST(f->how == 1); f.emplace(std::move(z)); MUST(f->how == 2); opt_t<Oe> g(std::in_place, std::move(z)); MUST(g->how == 2); MUST(opt::option_cast<Oe>(k)->how == 1); MUST(opt::option_cast<Oe>(o)->how == 1); MUST(opt::option_cast<Oe>(std::move(o))->how == 2); MUST(opt::option_cast<Oe>(opt_t<Of>(v))->how == 2); MUST(opt::make_option<Oe>(std::move(z))->how == 2); const opt_t<Oe> h; MUST(h.value_or(std::move(z)).how == 2); MUST(h.value_or(z).how == 1); MUST(opt_t<Oe>().value_or(std::move(z)).how == 2); MUST(h.value_or_construct(std::move(z)).how == 2); MUST(opt_t<Oe>().value_or_construct(z).how == 1); f.reset(); f.try_emplace(std::move(z)); MUST(f->how == 2);
@ conv_throws_cc_Xb | C26 C02 C03 | | throws
const opt_t<Xa> k(std::in_place, 1); RESET; opt_t<Xb> a(k); COPIES(1);
@ conv_throws_cr_Xb | C26 C02 C03 | | throws
opt_t<Xa> k(std::in_place, 1); RESET; opt_t<Xb> a(std::move(k)); MOVES(1);
@ conv_throws_ac_Xb | C26 C02 C03 | | throws
const opt_t<Xa> k(std::in_place, 1); opt_t<Xb> a; if (nd()) a.emplace(*k); bool e = a.has_value(); try { a = k; MUST(a.has_value()); } catch (...) { MUST(a.has_value() == e); }
@ conv_throws_ar_Xb | C26 C02 C03 | | throws
opt_t<Xa> k(std::in_place, 1); opt_t<Xb> a; if (nd()) a.emplace(*k); bool e = a.has_value(); try { a = std::move(k); MUST(a.has_value()); } catch (...) { MUST(a.has_value() == e); }
@ conv_throws_av_Xb | C26 C02 C03 | | throws
Xa k(1); opt_t<Xb> a; if (nd()) a.emplace(k); bool e = a.has_value(); try { if (nd()) a = k; else a = std::move(k); MUST(a.has_value()); } catch (...) { MUST(a.has_value() == e); }
@ conv_throws_em_Xb | C26 C02 C03 | | throws
Xa k(1); opt_t<Xb> a; if (nd()) a.emplace(k); try { if (nd()) a.emplace(k); else a.emplace(std::move(k)); MUST(a.has_value()); } catch (...) { MUST(!a.has_value()); }
@ conv_throws_te_Xb | C26 C02 C03 | | throws
Xa k(1); opt_t<Xb> a; try { if (nd()) a.try_emplace(k); else a.try_emplace(std::move(k)); MUST(a.has_value()); } catch (...) { MUST(!a.has_value()); }
@ conv_throws_vc_Xb | C26 C02 C03 | | throws
Xa k(1); opt_t<Xb> a(k); opt_t<Xb> b(std::move(k)); opt_t<Xb> c(std::in_place, k); MUST(a.has_value() && b.has_value() && c.has_value());
@ conv_throws_oc_Xb | C26 C02 C03 | | throws
opt_t<Xa> k(std::in_place, 1); auto a = opt::option_cast<Xb>(k); MUST(a.has_value()); auto b = opt::option_cast<Xb>(std::move(k)); MUST(b.has_value());
@ conv_throws_vo_Xb | C26 C02 C03 | | throws
Xa k(1); const opt_t<Xb> a; Xb b = a.value_or(k); Xb c = opt_t<Xb>().value_or(std::move(k)); Xb d = a.value_or_construct(k); (void)b; (void)c; (void)d;
@ conv_throws_mk_Xb | C26 C02 C03 | | throws
Xa k(1); auto a = opt::make_option<Xb>(k); MUST(a.has_value()); auto b = opt::make_option<Xb>(std::move(k)); MUST(b.has_value());
@ conv_throws_im_Xb | C26 C02 C03 | | throws
opt_t<Xa> k(std::in_place, 1); opt_t<Xb> a = k; opt_t<Xb> b = std::move(k); MUST(a.has_value() && b.has_value()); opt_t<Xb> c = *k; MUST(c.has_value());
@ conv_throws_cc_Xe | C26 C02 C03 | | throws
const opt_t<Xa> k(std::in_place, 1); RESET; opt_t<Xe> a(k); COPIES(1);
@ conv_throws_cr_Xe | C26 C02 C03 | | throws
opt_t<Xa> k(std::in_place, 1); RESET; opt_t<Xe> a(std::move(k)); MOVES(1);
@ conv_throws_ac_Xe | C26 C02 C03 | | throws
const opt_t<Xa> k(std::in_place, 1); opt_t<Xe> a; if (nd()) a.emplace(*k); bool e = a.has_value(); try { a = k; MUST(a.has_value()); } catch (...) { MUST(a.has_value() == e); }
@ conv_throws_ar_Xe | C26 C02 C03 | | throws
opt_t<Xa> k(std::in_place, 1); opt_t<Xe> a; if (nd()) a.emplace(*k); bool e = a.has_value(); try { a = std::move(k); MUST(a.has_value()); } catch (...) { MUST(a.has_value() == e); }
@ conv_throws_av_Xe | C26 C02 C03 | | throws
Xa k(1); opt_t<Xe> a; if (nd()) a.emplace(k); bool e = a.has_value(); try { if (nd()) a = k; else a = std::move(k); MUST(a.has_value()); } catch (...) { MUST(a.has_value() == e); }
@ conv_throws_em_Xe | C26 C02 C03 | | throws
Xa k(1); opt_t<Xe> a; if (nd()) a.emplace(k); try { if (nd()) a.emplace(k); else a.emplace(std::move(k)); MUST(a.has_value()); } catch (...) { MUST(!a.has_value()); }
@ conv_throws_te_Xe | C26 C02 C03 | | throws
Xa k(1); opt_t<Xe> a; try { if (nd()) a.try_emplace(k); else a.try_emplace(std::move(k)); MUST(a.has_value()); } catch (...) { MUST(!a.has_value()); }
@ conv_throws_vc_Xe | C26 C02 C03 | | throws
Xa k(1); opt_t<Xe> a(k); opt_t<Xe> b(std::move(k)); opt_t<Xe> c(std::in_place, k); MUST(a.has_value() && b.has_value() && c.has_value());
@ conv_throws_oc_Xe | C26 C02 C03 | | throws
opt_t<Xa> k(std::in_place, 1); auto a = opt::option_cast<Xe>(k); MUST(a.has_value()); auto b = opt::option_cast<Xe>(std::move(k)); MUST(b.has_value());
@ conv_throws_vo_Xe | C26 C02 C03 | | throws
Xa k(1); const opt_t<Xe> a; Xe b = a.value_or(k); Xe c = opt_t<Xe>().value_or(std::move(k)); Xe d = a.value_or_construct(k); (void)b; (void)c; (void)d;
@ conv_throws_mk_Xe | C26 C02 C03 | | throws
Xa k(1); auto a = opt::make_option<Xe>(k); MUST(a.has_value()); auto b = opt::make_option<Xe>(std::move(k)); MUST(b.has_value());
@ swap_hetero_throwing | C05 C02 C26 | | throws
opt_t<Ta> a; opt_t<Tb> b; if (nd()) a.emplace(1); if (nd()) b.emplace(2); bool ea = a.has_value(), eb = b.has_value(); try { if (nd()) a.swap(b); else opt::swap(b, a); MUST(a.has_value() == eb); MUST(b.has_value() == ea); } catch (...) { MUST(ea != eb); MUST(a.has_value() == ea); MUST(b.has_value() == eb); }
@ swap_adl | C05 | 
opt_t<Sw> a, b; if (nd()) a.emplace(1); if (nd()) b.emplace(2); bool ea = a.has_value(), eb = b.has_value(); RESET; a.swap(b); CALLS(ea && eb ? 1 : 0); MUST(a.has_value() == eb); MUST(b.has_value() == ea); RESET; using std::swap; swap(a, b); CALLS(ea && eb ? 1 : 0); RESET; opt::swap(a, b); CALLS(ea && eb ? 1 : 0);
@ ops_values | C10 C08 | int v [-5..5], int w [-9..9]
opt_t<int> a, b; if (nd()) a = v; if (nd()) b = w; bool ea = a.has_value(), eb = b.has_value(); auto o = a | b; MUST(o.has_value() == (ea || eb)); if (o) { MUST(*o == (ea ? v : w)); } auto n = a & b; MUST(n.has_value() == (ea && eb)); if (n) { MUST(*n == w); } auto x = a ^ b; MUST(x.has_value() == (ea != eb)); if (x) { MUST(*x == (ea ? v : w)); } int q = a | 6; MUST(q == (ea ? v : 6)); int q2 = std::move(a) | 6; MUST(q2 == (ea ? v : 6)); auto c = a; c |= b; MUST(c.has_value() == (ea || eb)); if (c) { MUST(*c == (ea ? v : w)); }
@ cmp_values | C09 C17 | int v [-5..5], int w [-5..5]
opt_t<int> a, b; if (nd()) a = v; if (nd()) b = w; bool ea = a.has_value(), eb = b.has_value(); MUST((a == b) == (ea == eb && (!ea || v == w))); MUST((a != b) == !(a == b)); MUST((a < b) == (eb && (!ea || v < w))); MUST((a > b) == (ea && (!eb || v > w))); MUST((a <= b) == !(a > b)); MUST((a >= b) == !(a < b)); MUST((a == w) == (ea && v == w)); MUST((w == a) == (ea && v == w)); MUST((a != w) == (!ea || v != w)); MUST((w != a) == (!ea || v != w)); MUST((a < w) == (!ea || v < w)); MUST((w < a) == (ea && w < v)); MUST((a <= w) == (!ea || v <= w)); MUST((w <= a) == (ea && w <= v)); MUST((a > w) == (ea && v > w)); MUST((w > a) == (!ea || w > v)); MUST((a >= w) == (ea && v >= w)); MUST((w >= a) == (!ea || w >= v));
@ cmp_none_values | C09 | int v [-5..5]
opt_t<int> a; if (nd()) a = v; bool e = a.has_value(); MUST((a == opt::none) == !e); MUST((opt::none == a) == !e); MUST((a != opt::none) == e); MUST((opt::none != a) == e); MUST(!(a < opt::none)); MUST((opt::none < a) == e); MUST((a <= opt::none) == !e); MUST(opt::none <= a); MUST((a > opt::none) == e); MUST(!(opt::none > a)); MUST(a >= opt::none); MUST((opt::none >= a) == !e);
@ copy_values | C03 C01 | int v [-5..5], int w [-9..9]
opt_t<int> a, b; if (nd()) a = v; if (nd()) b = w; bool ea = a.has_value(), eb = b.has_value(); opt_t<int> c(a); MUST(c.has_value() == ea); if (ea) { MUST(*c == v); } opt_t<int> d(std::move(b)); MUST(d.has_value() == eb); if (eb) { MUST(*d == w); } c = d; MUST(c.has_value() == eb); if (eb) { MUST(*c == w); } opt_t<long> l(a); MUST(l.has_value() == ea); if (ea) { MUST(*l == v); } l = d; MUST(l.has_value() == eb); if (eb) { MUST(*l == w); } l = 5; MUST(l.has_value() && *l == 5); l = opt::none; MUST(!l); l = std::move(a); MUST(l.has_value() == ea); if (ea) { MUST(*l == v); }
@ combine_values | C11 C03 | int v [-5..5], int w [-9..9]
opt_t<int> a; opt_t<long> b; if (nd()) a = v; if (nd()) b = w; bool ea = a.has_value(), eb = b.has_value(); auto z = opt::zip(a, b); SAME(z, opt_t<std::tuple<int, long>>); MUST(z.has_value() == (ea && eb)); if (z) { MUST(std::get<0>(*z) == v); MUST(std::get<1>(*z) == w); } auto q = opt::zip_with([&](int x, long y) { return x == v && y == w; }, a, b); MUST(q.has_value() == (ea && eb)); if (q) { MUST(*q); } auto u = opt::unzip(z); MUST(std::get<0>(u).has_value() == z.has_value()); MUST(std::get<1>(u).has_value() == z.has_value()); if (z) { MUST(*std::get<0>(u) == v); MUST(*std::get<1>(u) == w); } auto k = opt::option_cast<long>(a); SAME(k, opt_t<long>); MUST(k.has_value() == ea); if (ea) { MUST(*k == v); } auto m = opt::make_option(v); MUST(m.has_value() && *m == v); auto m2 = opt::make_option<long>(w); MUST(m2.has_value() && *m2 == w);
@ zip3_values | C11 | int v [-5..5]
opt_t<int> a, b, c; if (nd()) a = 1; if (nd()) b = v; if (nd()) c = 3; auto z = opt::zip(a, b, std::move(c)); MUST(z.has_value() == (a.has_value() && b.has_value() && c.has_value())); if (z) { MUST(std::get<0>(*z) == 1); MUST(std::get<1>(*z) == v); MUST(std::get<2>(*z) == 3); } int n = 0; opt::zip_with([&](int x, int y, int t) { ++n; MUST(x == 1); MUST(y == v); MUST(t == 3); }, a, b, c); MUST(n == (a.has_value() && b.has_value() && c.has_value() ? 1 : 0)); auto s = opt::zip(b); MUST(s.has_value() == b.has_value());
@ flatten_values | C11 C22 C03 | int v [-5..5]
opt_t<opt_t<opt_t<int>>> a; if (nd()) { a.emplace(); if (nd()) { a->emplace(); if (nd()) { (*a)->emplace(v); } } } auto f = opt::flatten(a); bool e = a.has_value() && a->has_value() && (*a)->has_value(); MUST(f.has_value() == e); if (e) { MUST(f.get() == v); } auto g = opt::flatten(std::move(a)); MUST(g.has_value() == e); if (e) { MUST(g.get() == v); }
@ as_option_bool | C11 | u8 k [0..1]
bool b; std::memcpy(&b, &k, 1); auto o = opt::as_option(b); MUST(o.has_value()); MUST(*o == (k != 0));
@ as_option_ptr | C11 C16 | U64 k
int* p; std::memcpy(&p, &k, 8); auto o = opt::as_option(p); MUST(o.has_value() == (k != 0xF8E1B1825D5D6C67)); int* q; std::memcpy(&q, &o, 8); U64 r; std::memcpy(&r, &q, 8); MUST(r == k);
@ unzip_pair | C11 C08 | int v [-5..5]
opt_t<std::pair<int, long>> a; if (nd()) a.emplace(v, 4L); auto u = opt::unzip(a); SAME(u, std::pair<opt_t<int>, opt_t<long>>); MUST(u.first.has_value() == a.has_value()); MUST(u.second.has_value() == a.has_value()); if (a) { MUST(*u.first == v); MUST(*u.second == 4); } opt_t<std::array<int, 2>> b; if (nd()) b = std::array<int, 2>{v, 8}; auto w = opt::unzip(std::move(b)); SAME(w, std::array<opt_t<int>, 2>); MUST(w[0].has_value() == b.has_value()); MUST(w[1].has_value() == b.has_value()); if (b) { MUST(*w[0] == v); MUST(*w[1] == 8); }
@ from_nullable_values | C11 C03 | int v [-5..5]
int x = v; int* p = nd() ? &x : nullptr; auto o = opt::from_nullable(p); SAME(o, opt_t<int&>); MUST(o.has_value() == (p != nullptr)); if (o) { MUST(&o.get() == &x); }
@ hash_values | C14 C17 | int v, int w
opt_t<int> a(v), b(w), e, f; std::hash<opt_t<int>> h; MUST(h(a) == std::hash<int>{}(v)); MUST(h(b) == std::hash<int>{}(w)); MUST(h(e) == h(f)); a = opt::none; MUST(h(a) == h(e)); a = w; MUST(h(a) == h(b)); MUST(h(opt_t<int>(a)) == h(a));
@ hash_user | C14 | 
opt_t<Sw> a; if (nd()) a.emplace(1); bool e = a.has_value(); RESET; std::size_t r = std::hash<opt_t<Sw>>{}(a); CALLS(e ? 1 : 0); std::size_t z = std::hash<opt_t<Sw>>{}(opt_t<Sw>{}); if (!e) { MUST(r == z); }
'''
FN_PRE = PRE + r'''
struct IlArg { int v; };
struct Ip { int moves = 0; int how; int n = 0; Ip(int, const IlArg&) : how(1) {} Ip(int, IlArg&&) : how(2) {} Ip(std::initializer_list<int> l, const IlArg&) : how(11), n(int(l.size())) {} Ip(std::initializer_list<int> l, IlArg&&) : how(12), n(int(l.size())) {} Ip(std::initializer_list<int> l) : how(13), n(int(l.size())) {} Ip(const Ip& o) : moves(o.moves + 1), how(o.how), n(o.n) {} Ip(Ip&& o) : moves(o.moves + 1), how(o.how), n(o.n) {} Ip& operator=(const Ip&) = delete; ~Ip() {} };

template<class T> using opt_t = opt::option<T>;
#define SAME(e, ...) static_assert(std::is_same_v<decltype(e), __VA_ARGS__>, #e)
int fi(int);
struct Sw { int v; explicit Sw(int x) noexcept : v(x) {} Sw(Sw&& o) noexcept : v(o.v) {} Sw& operator=(Sw&& o) noexcept { v = o.v; return *this; } };
void swap(Sw&, Sw&) noexcept;
struct Qb; struct Qa { int v; Qa(int x) noexcept : v(x) {} Qa(const Qb&) noexcept; }; struct Qb { int v; Qb(int x) noexcept : v(x) {} Qb(const Qa& q) noexcept : v(q.v) {} }; inline Qa::Qa(const Qb& q) noexcept : v(q.v) {}
inline void swap(Qa& a, Qb& b) noexcept { int t = a.v; a.v = b.v; b.v = t; } inline void swap(Qb& b, Qa& a) noexcept { swap(a, b); }
template<> struct std::hash<Sw> { std::size_t operator()(const Sw&) const noexcept; };
struct Of { int v; int moves = 0; explicit Of(int x) noexcept : v(x) {} Of(const Of& o) noexcept : v(o.v), moves(o.moves) {} Of(Of&& o) noexcept : v(o.v), moves(o.moves + 1) {} Of& operator=(const Of&) noexcept = default; Of& operator=(Of&&) noexcept = default; };
struct Oc { int how; int v; Oc(const Of& o) noexcept : how(1), v(o.v) {} Oc(Of&& o) noexcept : how(2), v(o.v) {} Oc& operator=(const Of& o) noexcept { how = 3; v = o.v; return *this; } Oc& operator=(Of&& o) noexcept { how = 4; v = o.v; return *this; } };
struct Oe { int how; int v; explicit Oe(const Of& o) noexcept : how(1), v(o.v) {} explicit Oe(Of&& o) noexcept : how(2), v(o.v) {} Oe& operator=(const Of& o) noexcept { how = 3; v = o.v; return *this; } Oe& operator=(Of&& o) noexcept { how = 4; v = o.v; return *this; } };
struct Xa { int v; explicit Xa(int) noexcept; Xa(const Xa&) noexcept; Xa(Xa&&) noexcept; Xa& operator=(const Xa&) noexcept; Xa& operator=(Xa&&) noexcept; ~Xa(); };
struct Xb { int v; Xb(const Xa&); Xb(Xa&&); Xb(const Xb&) noexcept; Xb(Xb&&) noexcept; Xb& operator=(const Xb&) noexcept; Xb& operator=(Xb&&) noexcept; Xb& operator=(const Xa&); Xb& operator=(Xa&&); ~Xb(); };
struct Xe { int v; explicit Xe(const Xa&); explicit Xe(Xa&&); Xe(const Xe&) noexcept; Xe(Xe&&) noexcept; Xe& operator=(const Xe&) noexcept; Xe& operator=(Xe&&) noexcept; Xe& operator=(const Xa&); Xe& operator=(Xa&&); ~Xe(); };
struct Tb; struct Ta { int v; explicit Ta(int) noexcept; Ta(Ta&&) noexcept; Ta(Tb&&); Ta& operator=(Ta&&) noexcept; ~Ta(); }; struct Tb { int v; explicit Tb(int) noexcept; Tb(Tb&&) noexcept; Tb(Ta&&); Tb& operator=(Tb&&) noexcept; ~Tb(); };
void swap(Ta&, Tb&) noexcept; void swap(Tb&, Ta&) noexcept;
'''
STD = "#include <variant>\n#include <array>\n#include <tuple>\n#include <functional>\n#include <cstring>\n#include <optional>\n#include <complex>\n#include <memory>\n#include <string>\n#include <string_view>\n#include <vector>\n"
AGG = r'''
template<> struct std::tuple_size<Agg> : std::integral_constant<std::size_t, 3> {};
template<std::size_t I> struct std::tuple_element<I, Agg> { using type = M; };
struct Th { int v; explicit Th(int); Th(const Th&); Th& operator=(const Th&); ~Th(); };
'''
NT = {"payload": 8, "dtor": True}
UNITS = [
    Unit("iter", PRE, IT, {"B": NT}, before=STD),
    Unit("look", "#define MUSTIN(c) do { if (!(c)) obs_mark(99999); } while (0)\n" + LK_PRE + AGG, LK, {"Th": {"payload": 4, "dtor": True}}, before=STD),
    Unit("func", FN_PRE, FN, {"B": NT, **{k: {"payload": 4, "dtor": True} for k in ("Xa", "Xb", "Xe")}, "Ta": {"payload": 4, "dtor": True}, "Tb": {"payload": 4, "dtor": True}}, before=STD),
]
