"""Catalogue of option operations and their documented meaning (docs/reference.md).

A scenario is one extern "C" function that performs one operation on abstract operands.  Its spec is
a function  spec(p, pr) -> Exp  where p maps parameter name -> contained token (None = empty) and pr
is the probe.  Tokens: V(x) is the value initially held by parameter x."""

ANY = "<any>"
ENG = "<engaged>"
SAME = "<same>"


class Exp:
    def __init__(self, post=None, calls=(), ret=None, exit="normal", unw=None, ops=None, rtok=None, lib_throw=False,
                 noev=None, thrown_by_lib=False, swap_ok=False, ret_call=None, maxmoves=None):
        self.post = post or {}
        self.calls = list(calls)      # (function, argument categories, argument tokens)
        self.ret = ret                # "val:x" contained object of x, "opt:x" the option, "null", "bool:0/1", "call:i"
        self.exit = exit              # normal | verify | libthrow
        self.unw = unw or {}          # per parameter: allowed engagement on unwind: "same" "empty" "engaged" "any"
        self.ops = ops                # required/forbidden operation kinds on contained objects
        self.noev = noev or ()


class Sc:
    def __init__(self, name, groups, params, body, spec, need=None, ret="void", out=None, outtype=None, guard=True):
        self.name, self.groups, self.params, self.body, self.spec = name, groups, params, body, spec
        self.need = need or (lambda pr: True)
        self.ret = ret


def s(x):
    return x if isinstance(x, (set, frozenset)) else {x}


def lref(t): return "from_lvalue:Q(%s)" % t
def rref(t): return "from_rvalue:Q(%s)" % t


def catalogue():
    L = []
    cp = lambda pr: pr.copyable
    mv = lambda pr: pr.movable
    cpa = lambda pr: pr.copyable and pr.cassign
    mva = lambda pr: pr.movable and pr.massign
    cv = lambda pr: pr.conv
    cva = lambda pr: pr.conv and not pr.const
    noagg = lambda pr: not pr.aggregate
    nonc = lambda pr: not pr.const

    def add(*a, **k):
        L.append(Sc(*a, **k))

    # ------------------------------------------------ construction
    add("ctor_default", ["C03"], "O& out", "new (&out) O();", lambda p, pr: Exp({"out": None}))
    add("ctor_none", ["C03"], "O& out", "new (&out) O(opt::none);", lambda p, pr: Exp({"out": None}))
    add("ctor_braces", ["C03"], "O& out", "new (&out) O{};", lambda p, pr: Exp({"out": None}))
    add("ctor_copy", ["C03", "C08"], "O& out, const O& a", "new (&out) O(a);", lambda p, pr: Exp({"out": p["a"]}), cp)
    add("ctor_copy_nc", ["C03", "C08"], "O& out, O& a", "new (&out) O(a);", lambda p, pr: Exp({"out": p["a"], "a": p["a"]}), cp)
    add("ctor_move", ["C03", "C08"], "O& out, O& a", "new (&out) O(std::move(a));",
        lambda p, pr: Exp({"out": p["a"], "a": pr.moved(p["a"])}, ops=("nocopy",)), mv)
    add("ctor_val_lv", ["C03", "C08"], "O& out, const T& x", "new (&out) O(x);", lambda p, pr: Exp({"out": p["x"]}), cp)
    add("ctor_val_lvnc", ["C03", "C08"], "O& out, T& x", "new (&out) O(x);", lambda p, pr: Exp({"out": p["x"], "x": p["x"]}), cp)
    add("ctor_val_rv", ["C03", "C08"], "O& out, T0& x", "new (&out) O(std::move(x));",
        lambda p, pr: Exp({"out": p["x"], "x": pr.moved(p["x"])}, ops=("nocopy",)), mv)
    add("ctor_conv_lv", ["C03", "C08"], "O& out, const Q& q", "new (&out) O(q);", lambda p, pr: Exp({"out": lref(p["q"])}), cv)
    add("ctor_conv_rv", ["C03", "C08"], "O& out, Q& q", "new (&out) O(std::move(q));",
        lambda p, pr: Exp({"out": rref(p["q"]), "q": {"moved(%s)" % p["q"]}}), cv)
    add("ctor_opt_conv_lv", ["C03", "C08"], "O& out, const OQ& a", "new (&out) O(a);",
        lambda p, pr: Exp({"out": p["a"] and lref(p["a"])}), cv)
    add("ctor_opt_conv_rv", ["C03", "C08"], "O& out, OQ& a", "new (&out) O(std::move(a));",
        lambda p, pr: Exp({"out": p["a"] and rref(p["a"]), "a": p["a"] and {"moved(%s)" % p["a"]}}), cv)
    add("ctor_inplace1", ["C03"], "O& out, const A& x", "new (&out) O(std::in_place, x);",
        lambda p, pr: Exp({"out": "from_lvalue:A(%s)" % p["x"]}, ops=("direct",)), noagg)
    add("ctor_inplace2", ["C03", "C08"], "O& out, const A& x, A& y", "new (&out) O(std::in_place, x, std::move(y));",
        lambda p, pr: Exp({"out": "P(from_lvalue:A(%s),from_rvalue:A(%s))" % (p["x"], p["y"])}, ops=("direct",)), noagg)
    add("ctor_args2", ["C03", "C08"], "O& out, const A& x, A& y", "new (&out) O(x, std::move(y));",
        lambda p, pr: Exp({"out": "P(from_lvalue:A(%s),from_rvalue:A(%s))" % (p["x"], p["y"])}, ops=("direct",)), noagg)
    add("ctor_inplace_il", ["C03"], "O& out, const A& x", "new (&out) O(std::in_place, {1, 2}, x);",
        lambda p, pr: Exp({"out": ENG}, ops=("direct",)), noagg)
    add("dtor", ["C01"], "O& a", "a.~O();", lambda p, pr: Exp({"a": "<destroyed>"}))
    # ------------------------------------------------ assignment
    keep = {"a": "same"}

    def asg(src, conv=None):
        def f(p, pr):
            v = p[src]
            return None if v is None else (conv(v) if conv else v)
        return f

    def mk_assign(kind, src, conv=None, mover=None):
        def spec(p, pr):
            v = p[src]
            e = {"a": None if v is None else (conv(v) if conv else v)}
            if mover:
                e[src] = None if v is None else mover(p, pr, v)
            ops = ()
            if p["a"] is not None and v is not None:
                ops = ("assigns:a", "nodestroy:a")
            elif v is not None:
                ops = ("constructs:a",)
            elif p["a"] is not None:
                ops = ("destroys:a",)
            return Exp(e, ops=ops + (("nocopy",) if mover and pr.mc not in ("none",) else ()), unw={"a": "same", src: "same"})
        return spec
    add("assign_none", ["C04"], "O& a", "a = opt::none;", lambda p, pr: Exp({"a": None}, ret="opt:a"), )
    add("assign_braces", ["C04"], "O& a", "a = {};", lambda p, pr: Exp({"a": None}), lambda pr: (pr.movable and pr.massign))
    add("assign_copy", ["C03", "C08"], "O& a, const O& b", "a = b;", mk_assign("copy", "b"), cpa)
    add("assign_copy_ret", ["C03"], "O& a, const O& b", "return a = b;", lambda p, pr: Exp({"a": p["b"]}, ret="opt:a", unw=keep), cpa, ret="O&")
    add("assign_move", ["C03", "C08"], "O& a, O& b", "a = std::move(b);",
        mk_assign("move", "b", None, lambda p, pr, v: (pr.moved_assign(v) if p["a"] is not None else pr.moved(v))), mva)
    add("assign_self_copy", ["C03"], "O& a", "a = static_cast<const O&>(a);", lambda p, pr: Exp({"a": p["a"]}, unw=keep), cpa)
    add("assign_self_move", ["C03"], "O& a", "a = std::move(a);",
        lambda p, pr: Exp({"a": None if p["a"] is None else ENG}, unw=keep), mva)
    add("assign_val_lv", ["C03", "C08"], "O& a, const T& x", "a = x;", mk_assign("copy", "x"), cpa)
    add("assign_val_rv", ["C03", "C08"], "O& a, T0& x", "a = std::move(x);",
        mk_assign("move", "x", None, lambda p, pr, v: (pr.moved_assign(v) if p["a"] is not None else pr.moved(v))), mva)
    add("assign_own_value", ["C03"], "O& a", "if (a.has_value()) a = static_cast<const T&>(a.get_unchecked());",
        lambda p, pr: Exp({"a": p["a"]}, unw=keep), cpa)
    add("assign_conv_lv", ["C03", "C08"], "O& a, const Q& q", "a = q;", mk_assign("copy", "q", lref), cva)
    add("assign_conv_rv", ["C03", "C08"], "O& a, Q& q", "a = std::move(q);",
        mk_assign("move", "q", rref, lambda p, pr, v: {"moved(%s)" % v}), cva)
    add("assign_opt_conv_lv", ["C03", "C08"], "O& a, const OQ& b", "a = b;", mk_assign("copy", "b", lref), cva)
    add("assign_opt_conv_rv", ["C03", "C08"], "O& a, OQ& b", "a = std::move(b);",
        mk_assign("move", "b", rref, lambda p, pr, v: {"moved(%s)" % v}), cva)
    # ------------------------------------------------ modifiers
    add("reset", ["C04"], "O& a", "a.reset();", lambda p, pr: Exp({"a": None}))
    add("reset_twice", ["C04"], "O& a", "a.reset(); a.reset();", lambda p, pr: Exp({"a": None}))
    add("emplace", ["C04"], "O& a, const A& x", "return a.emplace(x);",
        lambda p, pr: Exp({"a": "from_lvalue:A(%s)" % p["x"]}, ret="val:a", unw={"a": "empty"}), noagg, ret="T&")
    add("emplace2", ["C04", "C08"], "O& a, const A& x, A& y", "return a.emplace(x, std::move(y));",
        lambda p, pr: Exp({"a": "P(from_lvalue:A(%s),from_rvalue:A(%s))" % (p["x"], p["y"])}, ret="val:a", unw={"a": "empty"}, ops=("direct",)), noagg, ret="T&")
    add("emplace_copy", ["C04", "C08"], "O& a, const T& x", "return a.emplace(x);",
        lambda p, pr: Exp({"a": p["x"]}, ret="val:a", unw={"a": "empty"}), cp, ret="T&")
    add("try_emplace", ["C04"], "O& a, const A& x", "return a.try_emplace(x);",
        lambda p, pr: Exp({"a": p["a"] or "from_lvalue:A(%s)" % p["x"]}, ret="val:a", unw={"a": "same"}, ops=("noctor",) if p["a"] else ()), noagg, ret="T&")
    add("try_emplace_rv", ["C04", "C08"], "O& a, T0& x", "return a.try_emplace(std::move(x));",
        lambda p, pr: Exp({"a": p["a"] or p["x"], "x": p["x"] if p["a"] else pr.moved(p["x"])}, ret="val:a", unw={"a": "same"}, ops=("noctor",) if p["a"] else ("nocopy",)), mv, ret="T&")
    add("take", ["C04", "C08"], "O& out, O& a", "new (&out) O(a.take());",
        lambda p, pr: Exp({"out": p["a"], "a": None}, ops=("nocopy",), unw={"a": "same"}), lambda pr: pr.movable and nonc(pr))
    add("take_if", ["C04", "C07"], "O& out, O& a, const Pr& f", "new (&out) O(a.take_if(f));",
        lambda p, pr: (Exp({"out": None, "a": None}) if p["a"] is None else
                       Exp({}, calls=[("Pr", "P&", p["a"])], unw={"a": "same"}, ops=("takeif",))), lambda pr: pr.movable and nonc(pr))
    # ------------------------------------------------ swap
    sw = lambda pr: pr.movable and pr.massign and nonc(pr)

    def spec_swap(p, pr):
        both = p["a"] is not None and p["b"] is not None
        return Exp({"a": p["b"], "b": p["a"]}, unw={"a": "same", "b": "same"}, ops=("nocopy",))
    add("swap_member", ["C05", "C08"], "O& a, O& b", "a.swap(b);", spec_swap, sw)
    add("swap_free", ["C05"], "O& a, O& b", "swap(a, b);", spec_swap, sw)
    add("swap_std", ["C05"], "O& a, O& b", "using std::swap; swap(a, b);", spec_swap, sw)
    add("swap_self", ["C05"], "O& a", "a.swap(a);", lambda p, pr: Exp({"a": None if p["a"] is None else ENG}, unw={"a": "same"}), sw)
    # ------------------------------------------------ access
    for cq, ty in (("O& a", "lv"), ("const O& a", "clv")):
        c = "const " if ty == "clv" else ""
        e = "a"
        for rv in (False, True):
            x = "std::move(a)" if rv else "a"
            r = c + ("T&&" if rv else "T&")
            t = ty + ("_rv" if rv else "")
            chk = lambda p, pr: Exp({"a": p["a"]}, ret="val:a", ops=("pure",)) if p["a"] else Exp({"a": None}, exit="verify")
            if rv:
                pass
            add("get_" + t, ["C06", "C17"], cq, "return %s.get();" % x, chk, ret=r)
            add("deref_" + t, ["C06", "C17"], cq, "return *%s;" % x, chk, ret=r)
            add("unchecked_" + t, ["C06", "C17"], cq, "return %s.get_unchecked();" % x,
                lambda p, pr: Exp({"a": p["a"]}, ret="val:a", ops=("pure",)) if p["a"] else Exp({"a": None}, ret=ANY, ops=("pure",)), ret=r)
            thr = lambda p, pr: Exp({"a": p["a"]}, ret="val:a", ops=("pure",)) if p["a"] else Exp({"a": None}, exit="libthrow")
            add("value_" + t, ["C06", "C17"], cq, "return %s.value();" % x, thr, ret=r)
            add("value_or_throw_" + t, ["C06", "C17"], cq, "return %s.value_or_throw();" % x, thr, ret=r)
        add("arrow_" + ty, ["C06", "C17"], cq, "return a.operator->();", chk, ret=c + "T*")
        add("ptr_or_null_" + ty, ["C06", "C17"], cq, "return a.ptr_or_null();",
            lambda p, pr: Exp({"a": p["a"]}, ret="val:a" if p["a"] else "null", ops=("pure",)), ret=c + "T*")
    add("has_value", ["C06", "C17"], "const O& a", "return a.has_value();", lambda p, pr: Exp({"a": p["a"]}, ret="bool:%d" % (p["a"] is not None), ops=("pure",)), ret="bool")
    add("op_bool", ["C06", "C17"], "const O& a", "return static_cast<bool>(a);", lambda p, pr: Exp({"a": p["a"]}, ret="bool:%d" % (p["a"] is not None), ops=("pure",)), ret="bool")
    add("begin_end", ["C13", "C17"], "O& a", "if (a.begin() == a.end()) return nullptr; if (!(a.end() - a.begin() == 1)) { obs_mark(99); } auto it = a.begin(); T* r = std::addressof(*it); if (it.operator->() != r) obs_mark(97); ++it; if (it != a.end()) obs_mark(98); return r;",
        lambda p, pr: Exp({"a": p["a"]}, ret="val:a" if p["a"] else "null", ops=("pure",)), ret="T*")
    add("begin_end_c", ["C13", "C17"], "const O& a", "if (a.begin() == a.end()) return nullptr; if (!(a.end() - a.begin() == 1)) { obs_mark(99); } auto it = a.begin(); const T* r = std::addressof(*it); if (it.operator->() != r) obs_mark(97); ++it; if (it != a.end()) obs_mark(98); return r;",
        lambda p, pr: Exp({"a": p["a"]}, ret="val:a" if p["a"] else "null", ops=("pure",)), ret="const T*")
    for cst in ("", "const "):
        add("range_for" + ("_c" if cst else ""), ["C13", "C07"], cst + "O& a", "for (auto&& x : a) sink(x);",
            (lambda c: lambda p, pr: Exp({} if not c and p["a"] else {"a": p["a"]}, calls=[("sink", "P const&" if (c or pr.const) else "P&", p["a"])] if p["a"] else []))(bool(cst)))
    # ------------------------------------------------ fallbacks
    add("value_or_lv_lv", ["C07", "C08"], "T0& out, const O& a, const T0& x", "new (&out) T0(a.value_or(x));",
        lambda p, pr: Exp({"out": p["a"] or p["x"], "x": p["x"]}), cp)
    add("value_or_lv_rv", ["C07", "C08"], "T0& out, const O& a, T0& x", "new (&out) T0(a.value_or(std::move(x)));",
        lambda p, pr: Exp({"out": p["a"] or p["x"], "x": p["x"] if p["a"] else pr.moved(p["x"])}), cp)
    add("value_or_rv_rv", ["C07", "C08"], "T0& out, O& a, T0& x", "new (&out) T0(std::move(a).value_or(std::move(x)));",
        lambda p, pr: Exp({"out": p["a"] or p["x"], "a": None if p["a"] is None else (pr.moved(p["a"]) if not pr.const else {p["a"]}), "x": p["x"] if p["a"] else pr.moved(p["x"])},
                          ops=() if pr.const else ("nocopy",)), lambda pr: pr.movable and (nonc(pr) or pr.copyable))
    add("value_or_rv_lv", ["C07", "C08"], "T0& out, O& a, const T0& x", "new (&out) T0(std::move(a).value_or(x));",
        lambda p, pr: Exp({"out": p["a"] or p["x"], "a": None if p["a"] is None else (pr.moved(p["a"]) if not pr.const else {p["a"]})}), cp)
    add("value_or_conv", ["C07", "C08"], "T0& out, const O& a, Q& q", "new (&out) T0(a.value_or(std::move(q)));",
        lambda p, pr: Exp({"out": p["a"] or rref(p["q"]), "q": p["q"] if p["a"] else "moved(%s)" % p["q"]}), lambda pr: pr.conv and pr.copyable)
    add("value_or_construct_lv", ["C07", "C08"], "T0& out, const O& a, const A& x, A& y", "new (&out) T0(a.value_or_construct(x, std::move(y)));",
        lambda p, pr: Exp({"out": p["a"] or "P(from_lvalue:A(%s),from_rvalue:A(%s))" % (p["x"], p["y"])}), lambda pr: pr.copyable and not pr.aggregate)
    add("value_or_construct_rv", ["C07", "C08"], "T0& out, O& a, const A& x, A& y", "new (&out) T0(std::move(a).value_or_construct(x, std::move(y)));",
        lambda p, pr: Exp({"out": p["a"] or "P(from_lvalue:A(%s),from_rvalue:A(%s))" % (p["x"], p["y"]), "a": None if p["a"] is None else (pr.moved(p["a"]) if not pr.const else {p["a"]})},
                          ops=() if pr.const else ("nocopy",)), lambda pr: pr.movable and not pr.aggregate and (nonc(pr) or pr.copyable))
    add("value_or_construct_il", ["C07"], "T0& out, const O& a, const A& x", "new (&out) T0(a.value_or_construct({1, 2}, x));",
        lambda p, pr: Exp({"out": p["a"] or ENG}), lambda pr: pr.copyable and not pr.aggregate)
    # ------------------------------------------------ callbacks, all four value categories
    def cat(pr, cst, rv):
        c = cst or pr.const
        return "P const&&" if (c and rv) else "P const&" if c else "P&&" if rv else "P&"

    def aft(pr, cst, rv, tok):
        """value left in the option after a callback took it with the given category"""
        if tok is None: return None
        if cst or pr.const: return tok
        return {"consumed(%s)" % tok, "modified(%s)" % tok, tok}

    for cst in (False, True):
        for rv in (False, True):
            cq = ("const O& a" if cst else "O& a")
            t = ("clv" if cst else "lv") + ("_rv" if rv else "")
            x = "std::move(a)" if rv else "a"
            K = (cst, rv)

            def mkcall(fn, K=K):
                def f(p, pr):
                    return [(fn, cat(pr, *K), p["a"])] if p["a"] else []
                return f

            def post(p, pr, K=K, **kw):
                d = {"a": aft(pr, K[0], K[1], p["a"])}
                d.update(kw)
                return d
            add("map_" + t, ["C07", "C08"], "OR& out, %s, const FnR& f" % cq, "new (&out) OR(%s.map(f));" % x,
                (lambda mk=mkcall("FnR"), post=post: lambda p, pr: Exp(post(p, pr, out="ret:FnR::operator()" if p["a"] else None), calls=mk(p, pr)))())
            add("map_ref_" + t, ["C07", "C16"], "OREF& out, %s, const FnRef& f" % cq, "new (&out) OREF(%s.map(f));" % x,
                (lambda mk=mkcall("FnRef"), post=post: lambda p, pr: Exp(post(p, pr, out=("ref:&ret:FnRef::operator()" if p["a"] else None)), calls=mk(p, pr)))())
            add("and_then_" + t, ["C07", "C08"], "OR& out, %s, const FnOR& f" % cq, "new (&out) OR(%s.and_then(f));" % x,
                (lambda mk=mkcall("fnor_cb"), post=post: lambda p, pr: Exp(post(p, pr, out=None if not p["a"] else ANY), calls=mk(p, pr), ops=("andthen",)))())
            add("map_or_" + t, ["C07", "C08"], "R& out, %s, R& d, const FnR& f" % cq, "new (&out) R(%s.map_or(std::move(d), f));" % x,
                (lambda mk=mkcall("FnR"), post=post: lambda p, pr: Exp(post(p, pr, out="ret:FnR::operator()" if p["a"] else p["d"], d=p["d"] if p["a"] else {"moved(%s)" % p["d"]}), calls=mk(p, pr)))())
            add("map_or_lv_" + t, ["C07", "C08"], "R& out, %s, const R& d, const FnR& f" % cq, "new (&out) R(%s.map_or(d, f));" % x,
                (lambda mk=mkcall("FnR"), post=post: lambda p, pr: Exp(post(p, pr, out="ret:FnR::operator()" if p["a"] else p["d"], d=p["d"]), calls=mk(p, pr)))())
            add("map_or_else_" + t, ["C07", "C08"], "R& out, %s, const DefR& d, const FnR& f" % cq, "new (&out) R(%s.map_or_else(d, f));" % x,
                (lambda mk=mkcall("FnR"), post=post: lambda p, pr: Exp(post(p, pr, out="ret:FnR::operator()" if p["a"] else "ret:DefR::operator()"), calls=mk(p, pr) or [("DefR", None, None)]))())
            add("has_value_and_" + t, ["C07", "C08"], "%s, const Pr& f" % cq, "return %s.has_value_and(f);" % x,
                (lambda mk=mkcall("Pr"), post=post: lambda p, pr: Exp(post(p, pr), calls=mk(p, pr), ret="call:Pr" if p["a"] else "bool:0"))(), ret="bool")
            add("inspect_" + t, ["C07", "C08"], "%s, const FnV& f" % cq, "return %s.inspect(f);" % x,
                (lambda mk=mkcall("FnV"), post=post: lambda p, pr: Exp(post(p, pr), calls=mk(p, pr), ret="opt:a"))(), ret=("const " if cst else "") + "O&")

            def flt(p, pr, K=K):
                if p["a"] is None:
                    return Exp({"a": None, "out": None})
                return Exp({}, calls=[("Pr", "P const&" if (K[0] or pr.const) else "P&", p["a"])], ops=("filter_rv" if K[1] and not K[0] else "filter_lv",), unw={"a": "same"})
            add("filter_" + t, ["C07", "C08"], "O& out, %s, const PrV& f" % cq, "new (&out) O(%s.filter(f));" % x, flt,
                (lambda K=K: lambda pr: (pr.movable if (K[1] and not K[0]) else pr.copyable) and (not pr.const or pr.copyable))())
            if not (cst and rv) and not (not cst and not rv):
                def oe(p, pr, K=K):
                    if p["a"] is None:
                        return Exp({"a": None, "out": ANY}, calls=[("DefO", None, None)], ops=("orelse",))
                    return Exp({"a": pr.moved(p["a"]) if K[1] else p["a"], "out": p["a"]}, ops=("nocopy",) if K[1] else ())
                add("or_else_" + t, ["C07", "C08"], "O& out, %s, const DefO& f" % cq, "new (&out) O(%s.or_else(f));" % x, oe,
                    (lambda K=K: lambda pr: (pr.movable if K[1] else (pr.copyable and pr.movable)))())
    # ------------------------------------------------ comparisons
    ops = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}
    OO = {"==": (0, 0, 1), "!=": (1, 1, 0), "<": (0, 1, 0), "<=": (0, 1, 1), ">": (1, 0, 0), ">=": (1, 0, 1)}  # (a only, b only, neither)

    def cmp_oo(o):
        def f(p, pr):
            a, b = p["a"], p["b"]
            if a and b:
                return Exp({}, calls=[("operator" + o, ("P const&", p["_bt"]), (a, b))], ret="call:operator" + o, ops=("cmp",))
            r = OO[o][2 if not a and not b else 0 if a else 1]
            return Exp({}, ret="bool:%d" % r, ops=("cmp",))
        return f
    for n, o in ops.items():
        def f1(p, pr, o=o):
            q = dict(p); q["_bt"] = "P const&"
            return cmp_oo(o)(q, pr)

        def f2(p, pr, o=o):
            q = dict(p); q["_bt"] = "Q const&"
            return cmp_oo(o)(q, pr)
        add("cmp_oo_" + n, ["C09", "C17"], "const O& a, const O& b", "return a %s b;" % o, f1, ret="bool")
        add("cmp_oq_" + n, ["C09", "C17"], "const O& a, const OQ& b", "return a %s b;" % o, f2, ret="bool")

        def fv(p, pr, o=o, ty="P const&"):
            if p["a"]:
                return Exp({}, calls=[("operator" + o, ("P const&", ty), (p["a"], p["x"]))], ret="call:operator" + o, ops=("cmp",))
            return Exp({}, ret="bool:%d" % OO[o][1], ops=("cmp",))

        def fw(p, pr, o=o, ty="P const&"):
            if p["a"]:
                return Exp({}, calls=[("operator" + o, (ty, "P const&"), (p["x"], p["a"]))], ret="call:operator" + o, ops=("cmp",))
            return Exp({}, ret="bool:%d" % OO[o][0], ops=("cmp",))
        add("cmp_ov_" + n, ["C09", "C17"], "const O& a, const T& x", "return a %s x;" % o, fv, ret="bool")
        add("cmp_vo_" + n, ["C09", "C17"], "const T& x, const O& a", "return x %s a;" % o, fw, ret="bool")
        add("cmp_oqv_" + n, ["C09", "C17"], "const O& a, const Q& x", "return a %s x;" % o, (lambda fv=fv: lambda p, pr: fv(p, pr, ty="Q const&"))(), ret="bool")

        def fn(p, pr, o=o):
            return Exp({}, ret="bool:%d" % (OO[o][0] if p["a"] else OO[o][2]), ops=("cmp",))

        def fm(p, pr, o=o):
            return Exp({}, ret="bool:%d" % (OO[o][1] if p["a"] else OO[o][2]), ops=("cmp",))
        add("cmp_on_" + n, ["C09", "C17"], "const O& a", "return a %s opt::none;" % o, fn, ret="bool")
        add("cmp_no_" + n, ["C09", "C17"], "const O& a", "return opt::none %s a;" % o, fm, ret="bool")
    # ------------------------------------------------ operands that are the same object
    add("assign_own_value_rv", ["C03"], "O& a", "if (a.has_value()) a = std::move(a.get_unchecked());",
        lambda p, pr: Exp({"a": None if p["a"] is None else ENG}, unw=keep), lambda pr: mva(pr) and nonc(pr))
    add("assign_self_ret", ["C03"], "O& a", "return a = static_cast<const O&>(a);", lambda p, pr: Exp({"a": p["a"]}, ret="opt:a", unw=keep), cpa, ret="O&")
    add("assign_self_via_ref", ["C03"], "O& a", "O& r = a; r = static_cast<const O&>(a); r = static_cast<const O&>(r);", lambda p, pr: Exp({"a": p["a"]}, unw=keep), cpa)
    add("swap_free_self", ["C05"], "O& a", "swap(a, a);", lambda p, pr: Exp({"a": None if p["a"] is None else ENG}, unw={"a": "same"}), sw)
    add("try_emplace_own", ["C04"], "O& a", "if (!a.has_value()) return nullptr; return std::addressof(a.try_emplace(static_cast<const T&>(a.get_unchecked())));",
        lambda p, pr: Exp({"a": p["a"]}, ret="val:a" if p["a"] else "null", ops=("noctor",)), cp, ret="T*")
    for n, o in ops.items():
        add("cmp_self_" + n, ["C09", "C17"], "const O& a", "return a %s a;" % o,
            (lambda o: lambda p, pr: Exp({}, calls=[("operator" + o, ("P const&", "P const&"), (p["a"], p["a"]))] if p["a"] else [],
                                         ret="call:operator" + o if p["a"] else "bool:%d" % OO[o][2], ops=("cmp",)))(o), ret="bool")
    add("or_self", ["C10"], "O& out, const O& a", "new (&out) O(a | a);", lambda p, pr: Exp({"out": p["a"], "a": p["a"]}), lambda pr: pr.copyable and pr.movable)
    add("and_self", ["C10"], "O& out, const O& a", "new (&out) O(a & a);", lambda p, pr: Exp({"out": p["a"], "a": p["a"]}), lambda pr: pr.copyable and pr.movable)
    add("xor_self", ["C10"], "O& out, const O& a", "new (&out) O(a ^ a);", lambda p, pr: Exp({"out": None, "a": p["a"]}), lambda pr: pr.copyable and pr.movable)
    add("value_or_own", ["C07", "C08"], "T0& out, const O& a, const T0& x", "new (&out) T0(a.value_or(a.has_value() ? a.get_unchecked() : x));",
        lambda p, pr: Exp({"out": p["a"] or p["x"], "x": p["x"]}), cp)
    # ------------------------------------------------ logical operators
    def pick(kind, lrv, rrv):
        def f(p, pr):
            a, b = p["a"], p["b"]
            e = {"a": a, "b": b}
            if kind == "or":
                w = "a" if a else "b"
            elif kind == "xor":
                w = "a" if a and not b else "b" if b and not a else None
            else:
                w = "b" if a else None
            e["out"] = p[w] if w else None
            if w == "a" and lrv: e["a"] = pr.moved(a)
            if w == "b" and rrv: e["b"] = pr.moved(b)
            ops_ = ("nocopy",) if w and ((w == "a" and lrv) or (w == "b" and rrv)) and pr.mc != "none" else ()
            return Exp(e, ops=ops_)
        return f
    cm = lambda pr: pr.copyable and pr.movable
    for lrv in (0, 1):
        for rrv in (0, 1):
            ps = "O& out, %sO& a, %sO& b" % ("" if lrv else "const ", "" if rrv else "const ")
            l = "std::move(a)" if lrv else "a"
            r = "std::move(b)" if rrv else "b"
            nd = (lambda lrv=lrv, rrv=rrv: lambda pr: pr.movable and (pr.copyable or (lrv and rrv)))()
            add("or_oo_%d%d" % (lrv, rrv), ["C10", "C08"], ps, "new (&out) O(%s | %s);" % (l, r), pick("or", lrv, rrv), nd)
            add("xor_oo_%d%d" % (lrv, rrv), ["C10", "C08"], ps, "new (&out) O(%s ^ %s);" % (l, r), pick("xor", lrv, rrv), nd)
    add("and_oo_lv", ["C10", "C08"], "O& out, const OQ& a, const O& b", "new (&out) O(a & b);", pick("and", 0, 0), cp)
    add("and_oo_rv", ["C10", "C08"], "O& out, const OQ& a, O& b", "new (&out) O(a & std::move(b));", pick("and", 0, 1), mv)
    add("or_ov", ["C10", "C08"], "T0& out, const O& a, const T0& x", "new (&out) T0(a | x);", lambda p, pr: Exp({"out": p["a"] or p["x"], "x": p["x"]}), cp)
    add("or_ov_rv", ["C10", "C08"], "T0& out, O& a, T0& x", "new (&out) T0(std::move(a) | std::move(x));",
        lambda p, pr: Exp({"out": p["a"] or p["x"], "a": None if not p["a"] else (pr.moved(p["a"]) if not pr.const else {p["a"]}), "x": p["x"] if p["a"] else pr.moved(p["x"])}, ops=() if pr.const else ("nocopy",)),
        lambda pr: pr.movable and (nonc(pr) or pr.copyable))

    def orassign(src, rv):
        def f(p, pr):
            e = {"a": p["a"] if p["a"] else p[src]}
            if rv:
                e[src] = p[src] if p["a"] or p[src] is None else pr.moved(p[src])
            return Exp(e, ret="opt:a", unw={"a": "same", src: "same"}, ops=("noctor",) if p["a"] else ())
        return f
    add("orassign_val", ["C10", "C08"], "O& a, const T& x", "return a |= x;", orassign("x", 0), cpa, ret="O&")
    add("orassign_val_rv", ["C10", "C08"], "O& a, T0& x", "return a |= std::move(x);", orassign("x", 1), mva, ret="O&")
    add("orassign_opt", ["C10", "C08"], "O& a, const O& b", "return a |= b;", orassign("b", 0), cpa, ret="O&")
    add("orassign_opt_rv", ["C10", "C08"], "O& a, O& b", "return a |= std::move(b);", orassign("b", 1), mva, ret="O&")
    # ------------------------------------------------ hash / io
    add("hash", ["C14", "C17"], "const O& a", "return std::hash<O>{}(a);",
        lambda p, pr: Exp({}, calls=[("hash", "P const&", p["a"])] if p["a"] else [], ret="callv:hash" if p["a"] else "const:hash", ops=("pure_but_calls",)), ret="std::size_t")

    def io1(p, pr):
        return Exp({"a": p["a"]}, calls=[("operator<<", "P const&" , p["a"])] if p["a"] else [], ret="obj:s")

    def io2(p, pr):
        return Exp({"a": p["a"]}, calls=[("operator<<", "P const&", p["a"])] if p["a"] else [("operator<<", "A const&", p["x"])], ret="obj:s")
    add("io_out_c", ["C15"], "Strm& s, const O& a", "return s << opt::io(a);", io1, ret="Strm&")
    add("io_out", ["C15"], "Strm& s, O& a", "return s << opt::io(a);", io1, ret="Strm&")
    add("io_out2_c", ["C15"], "Strm& s, const O& a, const A& x", "return s << opt::io(a, x);", io2, ret="Strm&")
    add("io_out2", ["C15"], "Strm& s, O& a, A& x", "return s << opt::io(a, x);", io2, ret="Strm&")
    add("io_in", ["C15"], "Strm& s, O& a, A& x", "return s >> opt::io(a, x);",
        lambda p, pr: Exp({"a": "modified(%s)" % p["a"] if p["a"] else None, "x": p["x"] if p["a"] else "modified(%s)" % p["x"]},
                          calls=[("operator>>", "P&", p["a"])] if p["a"] else [("operator>>", "A&", p["x"])], ret="obj:s", unw={"a": "same"}), nonc, ret="Strm&")
    # ------------------------------------------------ combining / converting
    add("make_option_rv", ["C11", "C08"], "O& out, T0& x", "new (&out) O(opt::make_option(std::move(x)));",
        lambda p, pr: Exp({"out": p["x"], "x": pr.moved(p["x"])}, ops=("nocopy",)), lambda pr: pr.movable and nonc(pr))
    add("make_option_lv", ["C11", "C08"], "O& out, const T0& x", "new (&out) O(opt::make_option(x));",
        lambda p, pr: Exp({"out": p["x"]}), lambda pr: pr.copyable and nonc(pr))
    add("make_option_args", ["C11", "C08"], "O& out, const A& x, A& y", "new (&out) O(opt::make_option<T>(x, std::move(y)));",
        lambda p, pr: Exp({"out": "P(from_lvalue:A(%s),from_rvalue:A(%s))" % (p["x"], p["y"])}, ops=("direct",)), noagg)
    add("make_option_il", ["C11"], "O& out, const A& x", "new (&out) O(opt::make_option<T>({1, 2}, x));", lambda p, pr: Exp({"out": ENG}, ops=("direct",)), noagg)
    add("cast_lv", ["C11", "C08"], "O& out, const OQ& a", "new (&out) O(opt::option_cast<T>(a));",
        lambda p, pr: Exp({"out": p["a"] and lref(p["a"])}), cv)
    add("cast_rv", ["C11", "C08"], "O& out, OQ& a", "new (&out) O(opt::option_cast<T>(std::move(a)));",
        lambda p, pr: Exp({"out": p["a"] and rref(p["a"]), "a": p["a"] and {"moved(%s)" % p["a"]}}), cv)

    def zw(p, pr, cats):
        if p["a"] and p["b"]:
            return [("Fn2", cats, (p["a"], p["b"]))]
        return []
    add("zip_with_lv", ["C11", "C08"], "OR& out, const O& a, const OQ& b, const Fn2& f", "new (&out) OR(opt::zip_with(f, a, b));",
        lambda p, pr: Exp({"out": "ret:Fn2::operator()" if p["a"] and p["b"] else None}, calls=zw(p, pr, ("P const&", "Q const&"))))
    add("zip_with_rv", ["C11", "C08"], "OR& out, O& a, OQ& b, const Fn2& f", "new (&out) OR(opt::zip_with(f, std::move(a), std::move(b)));",
        lambda p, pr: Exp({"out": "ret:Fn2::operator()" if p["a"] and p["b"] else None,
                           "a": p["a"] and ({p["a"], "consumed(%s)" % p["a"]} if p["b"] else p["a"]), "b": p["b"] and ({p["b"], "consumed(%s)" % p["b"]} if p["a"] else p["b"])},
                          calls=zw(p, pr, ("P&&", "Q&&"))), nonc)
    add("zip_with_void", ["C11", "C07"], "O& a, const OQ& b, const Fn2V& f", "opt::zip_with(f, a, b);",
        lambda p, pr: Exp({} if p["a"] and p["b"] else {"a": p["a"]}, calls=[("Fn2V", ("P&" if not pr.const else "P const&", "Q const&"), (p["a"], p["b"]))] if p["a"] and p["b"] else []))
    add("zip_lv", ["C11", "C08"], "OT& out, const O& a, const OQ& b", "new (&out) OT(opt::zip(a, b));",
        lambda p, pr: Exp({"out": ("tup", p["a"], p["b"]) if p["a"] and p["b"] else None}), lambda pr: pr.copyable and pr.movable and nonc(pr))
    add("zip_rv", ["C11", "C08"], "OT& out, O& a, OQ& b", "new (&out) OT(opt::zip(std::move(a), std::move(b)));",
        lambda p, pr: Exp({"out": ("tup", p["a"], p["b"]) if p["a"] and p["b"] else None,
                           "a": pr.moved(p["a"]) if p["a"] and p["b"] else p["a"], "b": {"moved(%s)" % p["b"]} if p["a"] and p["b"] else p["b"]}, ops=("nocopy",)), lambda pr: pr.movable and nonc(pr))
    add("unzip_lv", ["C11", "C08"], "TO& out, const OT& a", "new (&out) TO(opt::unzip(a));",
        lambda p, pr: Exp({"out": ("topt",) + (tuple(p["a"]) if p["a"] else (None, None))}), lambda pr: pr.copyable and pr.movable and nonc(pr))
    add("unzip_rv", ["C11", "C08"], "TO& out, OT& a", "new (&out) TO(opt::unzip(std::move(a)));",
        lambda p, pr: Exp({"out": ("topt",) + (tuple(p["a"]) if p["a"] else (None, None))}, ops=("nocopy",)), lambda pr: pr.movable and nonc(pr))
    add("make_ot", ["C11"], "OT& out, O& a, OQ& b", "if (a.has_value() && b.has_value()) new (&out) OT(std::in_place, std::move(a).get_unchecked(), std::move(b).get_unchecked()); else new (&out) OT();",
        lambda p, pr: Exp({}), lambda pr: pr.movable and nonc(pr))
    # get<I> on option of tuple
    return L
