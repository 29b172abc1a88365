"""Probe types: opaque user classes whose every special member is declared but never defined, so the
analysis treats each of them as arbitrary user code (which may throw unless declared noexcept)."""


class Probe:
    def __init__(self, name, cc="user", ca="user", mc="user", ma="user", dt="user", conv=True, traits=0,
                 cls="P", const=False, aggregate=False, nested=0, shape=None):
        # cc.. in {"user","noex","triv","del","none"}; "none" = not declared (rvalues fall back to copy)
        self.name, self.cc, self.ca, self.mc, self.ma, self.dt = name, cc, ca, mc, ma, dt
        self.conv, self.traits, self.cls = conv, traits, cls
        self.const, self.aggregate, self.nested = const, aggregate, nested
        # how the class is laid out and what else it declares: dict(pre, key, base, body, psize)
        self.shape = shape or {}
        self.psize = self.shape.get("psize", 8)

    # --- derived facts (what the C++ rules say about such a class)
    @property
    def copyable(self): return self.cc not in ("del",)
    @property
    def movable(self): return self.mc not in ("del",)
    @property
    def cassign(self): return self.ca not in ("del",) and not self.const
    @property
    def massign(self): return self.ma not in ("del",) and not self.const
    @property
    def dtor(self): return self.dt == "user"

    def move_ctor_throws(self):
        return self.mc == "user" or (self.mc == "none" and self.cc == "user")

    def copy_ctor_throws(self): return self.cc == "user"

    def moved(self, tok):
        """acceptable tokens of an object that was handed on as an rvalue to construction"""
        if tok is None:
            return None
        if self.mc in ("user", "noex"):
            return {"moved(%s)" % tok}
        return {tok}

    def moved_assign(self, tok):
        if self.ma in ("user", "noex"):
            return {"moved(%s)" % tok}
        return {tok}

    def decl(self, cls=None):
        c = cls or self.cls
        sh = self.shape
        o = ([sh["pre"]] if "pre" in sh else []) + ["struct %s%s%s {" % (sh.get("attr", ""), c, sh.get("base", ""))]
        if self.aggregate:
            o += ["  U64 payload;", "  U64 second;", "};"]
            return "\n".join(o)

        def m(kind, sig, ret=""):
            if kind == "none":
                return
            tail = {"user": "", "noex": " noexcept", "triv": " = default", "del": " = delete"}[kind]
            o.append("  %s%s%s;" % (ret, sig, tail))
        o.append("  explicit %s(const A&);" % c)
        o.append("  %s(const A&, A&&);" % c)
        o.append("  %s(std::initializer_list<int>, const A&);" % c)
        if self.conv:
            o.append("  %s(const Q&); %s(Q&&);" % (c, c))
            if not self.const:
                o.append("  %s& operator=(const Q&); %s& operator=(Q&&);" % (c, c))
        m(self.cc, "%s(const %s&)" % (c, c))
        m(self.mc, "%s(%s&&)" % (c, c))
        m(self.ca, "operator=(const %s&)" % c, "%s& " % c)
        m(self.ma, "operator=(%s&&)" % c, "%s& " % c)
        if self.dt == "user":
            o.append("  %s~%s();" % ("virtual " if sh.get("vdtor") else "", c))
        o.append(sh.get("fields", "  U64 payload;"))
        o.append(sh.get("body", ""))
        o.append("};")
        return "\n".join(o)

    def class_config(self):
        d = {"payload": self.psize}
        if self.dtor:
            d["dtor"] = True
        if self.cc == "triv" or self.mc == "triv" or self.aggregate:
            d["trivconstruct"] = True
        if self.traits:
            d["max_level"] = self.traits
        return d


def core_probes(tier):
    P = Probe
    out = [
        P("throwing"),
        P("nothrow", cc="noex", ca="noex", mc="noex", ma="noex"),
        P("trivial", cc="triv", ca="triv", mc="triv", ma="triv", dt="triv"),
        P("moveonly", cc="del", ca="del", mc="noex", ma="noex"),
        P("moveonly_throw", cc="del", ca="del", mc="user", ma="user"),
        P("copyonly", mc="none", ma="none"),
        P("trivdtor", dt="triv"),
        P("nontrivdtor_trivassign", cc="user", ca="triv", mc="user", ma="triv"),
        P("noassign", ca="del", ma="del"),
        P("traits_nontriv", traits=4),
        P("traits_nothrow", traits=1, cc="noex", ca="noex", mc="noex", ma="noex"),
        P("traits_trivdtor", traits=4, dt="triv"),
        P("traits_trivial", traits=1, cc="triv", ca="triv", mc="triv", ma="triv", dt="triv"),
        P("traits_moveonly", traits=2, cc="del", ca="del"),
        P("const", const=True),
        P("const_traits", const=True, traits=4),
    ]
    return out


def triviality_probes():
    """every mixture of trivial / user-provided special members, with trivial and user destructor,
    with and without spare levels"""
    out = []
    for dt in ("triv", "user"):
        for tr in (0, 3):
            for m in range(16):
                k = ["triv" if m >> i & 1 else "user" for i in range(4)]
                out.append(Probe("mix_%s_%s_%d" % (dt, "tr" if tr else "fl", m), cc=k[0], ca=k[1], mc=k[2], ma=k[3], dt=dt, traits=tr))
    return out


def shape_probes():
    """the contained type's layout and its other members must not matter"""
    P = Probe
    triv = dict(cc="triv", ca="triv", mc="triv", ma="triv", dt="triv")
    noex = dict(cc="noex", ca="noex", mc="noex", ma="noex")
    big = {"fields": "  U64 payload; U64 rest[40];"}
    small = {"fields": "  u8 payload;", "psize": 1}
    empty = {"fields": "", "psize": 1, "ebo": True}
    fempty = {"fields": "", "psize": 1, "base": " final"}
    odd = {"fields": "  u8 payload[3];", "psize": 3}
    over = {"attr": "alignas(64) "}
    final = {"base": " final"}
    base = {"pre": "struct PB0 {}; struct PB1 { PB1(const PB1&) = default; PB1() = default; }; ", "base": " : PB0, PB1"}
    poly = {"body": "  virtual void vf() const;", "vptr": True}
    pdtor = {"body": "  virtual void vf() const;", "vdtor": True, "vptr": True}
    ops = {"body": "  P* operator&() = delete; const P* operator&() const = delete; template<class X> void operator,(X&&) const = delete; static void* operator new(std::size_t) = delete; static void* operator new(std::size_t, void*) = delete; static void operator delete(void*) = delete;"}
    boolean = {"body": "  explicit operator bool() const; explicit operator int() const; bool operator!() const; bool has_value() const; void reset(); P& get(); P& operator*() const; P* operator->() const; void swap(P&);"}
    return [
        P("shape_big", shape=big), P("shape_big_trivial", shape=big, **triv), P("shape_big_traits", shape=big, traits=2),
        P("shape_small", shape=small), P("shape_small_trivial", shape=small, **triv), P("shape_odd_trivdtor", shape=odd, dt="triv"),
        P("shape_odd_traits", shape=odd, traits=3, **triv), P("shape_empty", shape=empty), P("shape_empty_nothrow", shape=empty, **noex),
        P("shape_empty_final", shape=fempty), P("shape_empty_final_nothrow", shape=fempty, dt="triv", **noex), P("shape_empty_traits", shape=empty, traits=2, **noex),
        P("shape_over", shape=over), P("shape_over_trivial", shape=over, **triv), P("shape_over_traits", shape=over, traits=3),
        P("shape_final", shape=final), P("shape_derived", shape=base), P("shape_derived_traits", shape=base, traits=1, dt="triv"),
        P("shape_poly", shape=poly), P("shape_poly_nothrow", shape=poly, **noex), P("shape_poly_vdtor", shape=pdtor),
        P("shape_operators", shape=ops), P("shape_operators_traits", shape=ops, traits=2, **noex), P("shape_operators_trivdtor", shape=ops, dt="triv"),
        P("shape_optionlike", shape=boolean), P("shape_optionlike_traits", shape=boolean, traits=2), P("shape_optionlike_moveonly", shape=boolean, cc="del", ca="del", mc="noex", ma="noex"),
    ]
