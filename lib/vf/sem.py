"""Semantic analysis of the option operations: generate a probe unit, run the typestate/effect
analysis over all abstract pre-states and all exceptional paths, and compare every outcome with the
documented meaning."""
import re
from . import core
from .core import Broken
from .ops import catalogue, ANY, ENG, Exp

COMMON = r'''
#include "verif_pre.hpp"
struct A { U64 payload; };
struct Q { Q(const Q&); Q(Q&&); Q& operator=(const Q&); Q& operator=(Q&&); ~Q(); U64 payload; };
struct R { R(const R&); R(R&&); R& operator=(const R&); R& operator=(R&&); ~R(); U64 payload; };
%(probe)s
%(traits)s
struct Strm { U64 x; };
Strm& operator<<(Strm&, const P&); Strm& operator<<(Strm&, const A&); Strm& operator>>(Strm&, P&); Strm& operator>>(Strm&, A&);
#define CMP(op) bool operator op(const P&, const P&); bool operator op(const P&, const Q&); bool operator op(const Q&, const P&);
CMP(==) CMP(!=) CMP(<) CMP(<=) CMP(>) CMP(>=)
template<> struct std::hash<P> { std::size_t operator()(const P&) const; };
void sink(P&); void sink(const P&);
using T0 = P; using T = %(T)s;
using O = opt::option<T>; using OQ = opt::option<Q>; using OR = opt::option<R>; using OREF = opt::option<R&>;
#define FN(NAME, RET) struct NAME { RET operator()(P&) const; RET operator()(const P&) const; RET operator()(P&&) const; RET operator()(const P&&) const; };
FN(FnR, R) FN(FnRef, R&) FN(Pr, bool) FN(PrV, bool) FN(FnV, void)
bool fnor_choice(); R fnor_make();
void fnor_cb(P&); void fnor_cb(const P&); void fnor_cb(P&&); void fnor_cb(const P&&);
struct FnOR { template<class X> OR operator()(X&& x) const { fnor_cb(static_cast<X&&>(x)); if (fnor_choice()) return OR(fnor_make()); return OR(); } };
struct DefR { R operator()() const; };
bool defo_choice(); %(defo_decl)s
void defo_cb();
struct DefO { O operator()() const { defo_cb(); if (defo_choice()) return %(defo_make)s; return O(); } };
struct Fn2 { R operator()(const P&, const Q&) const; R operator()(P&&, Q&&) const; R operator()(P&, Q&) const; };
struct Fn2V { void operator()(const P&, const Q&) const; void operator()(P&, const Q&) const; void operator()(P&&, Q&&) const; };
using TT = std::tuple<P, Q>; using OT = opt::option<TT>; using TO = std::tuple<opt::option<P>, opt::option<Q>>;
extern "C" {
extern const std::uint64_t szof_O, szof_OQ, szof_OR, szof_OREF, szof_OT, szof_TO, szof_P, szof_R;
const std::uint64_t szof_O = sizeof(O), szof_OQ = sizeof(OQ), szof_OR = sizeof(OR), szof_OREF = sizeof(OREF), szof_P = sizeof(P), szof_R = sizeof(R), szof_OT = sizeof(OT), szof_TO = sizeof(TO);
#define OBS(NAME, TY, SZ) void NAME(const TY& a, int id) { bool e = a.has_value(); obs_state(id, e, e ? static_cast<const void*>(__builtin_addressof(a.get_unchecked())) : nullptr, SZ); }
OBS(obs_O, O, %(psize)d) OBS(obs_OQ, OQ, 8) OBS(obs_OR, OR, 8) OBS(obs_OREF, OREF, 8)
void obs_P(const P& a, int id) { obs_state(id, true, __builtin_addressof(a), %(psize)d); }
void obs_R(const R& a, int id) { obs_state(id, true, &a, 8); }
void obs_Q(const Q& a, int id) { obs_state(id, true, &a, 8); }
void obs_A(const A& a, int id) { obs_state(id, true, &a, 8); }
void obs_OT(const OT& a, int id) { bool e = a.has_value(); obs_state(id, e, e ? __builtin_addressof(std::get<0>(a.get_unchecked())) : nullptr, %(psize)d); if (e) obs_state(id, e, &std::get<1>(a.get_unchecked()), 8); }
void obs_TO(const TO& a, int id) { obs_O(std::get<0>(a), id); obs_OQ(std::get<1>(a), id); }
void pre_O(const O& a) { obs_O(a, 0); }
void pre_OQ(const OQ& a) { obs_OQ(a, 0); }
void pre_OT(const OT& a) { obs_OT(a, 0); }
'''

OPT_TYPES = {"O", "OQ", "OR", "OREF", "OT"}
OUT_TYPES = OPT_TYPES | {"T0", "R", "TO"}
OBJ_TYPES = {"T": "P", "T0": "P", "Q": "Q", "A": "A", "R": "R"}
FN_TYPES = {"FnR", "FnRef", "FnOR", "Pr", "PrV", "FnV", "DefR", "DefO", "Fn2", "Fn2V", "Strm"}


def parse_params(s):
    out = []
    for part in s.split(","):
        part = part.strip()
        m = re.match(r"(const )?(\w+)& (\w+)$", part)
        if not m:
            raise Broken("parameter " + part)
        out.append((bool(m.group(1)), m.group(2), m.group(3)))
    return out


def unit_source(pr, scs):
    traits = ""
    if pr.traits:
        traits = ("template<> struct opt::option_traits<P> { static constexpr std::uintmax_t max_level = %d; "
                  "static std::uintmax_t get_level(const P*) noexcept; static void set_level(P*, std::uintmax_t) noexcept; };" % pr.traits)
    d = {"psize": pr.psize, "probe": pr.decl(), "traits": traits, "T": ("const P" if pr.const else "P"),
         "defo_decl": "extern const A& defo_arg;" if not pr.aggregate else "P defo_make();",
         "defo_make": "O(std::in_place, defo_arg)"}
    src = COMMON % d
    for sc in scs:
        src += scen_source(sc) + "\n"
    return src + "}\n"


def scen_source(sc):
    return "%s sc_%s(%s) { %s }" % (sc.ret, sc.name, sc.params, sc.body.replace("new (&out)", "::new (__builtin_addressof(out))"))


def src_of(sc):
    return "%s sc(%s) { %s }" % (sc.ret, sc.params, sc.body)


def class_table(pr):
    nt = {"payload": 8, "dtor": True}
    return {"P": pr.class_config(), "Q": dict(nt), "R": dict(nt), "A": {"payload": 8, "trivconstruct": True}}


def config(pr, scs):
    scen = []
    for t in ("O", "OQ", "OT"):
        scen.append({"name": "pre_" + t, "fn": "pre_" + t, "params": [{"name": "a", "kind": "image", "set": t}]})
    # seeds for the other option type
    for sc in scs:
        ps, ob = [], []
        for i, (cst, ty, nm) in enumerate(parse_params(sc.params)):
            if nm == "out":
                e = {"name": nm, "kind": "raw", "sizesym": "szof_" + ("P" if ty == "T0" else ty)}
                if ty in OPT_TYPES and ty in ("O", "OQ", "OT"):
                    e["collect"] = ty
                ps.append(e)
                ob.append({"fn": "obs_" + ("P" if ty == "T0" else ty), "param": nm, "id": i, "normal_only": True})
            elif ty in OPT_TYPES:
                e = {"name": nm, "kind": "image", "set": ty, "collect": ty}
                if cst:
                    e["const"] = True
                ps.append(e)
                if sc.name != "dtor":
                    ob.append({"fn": "obs_" + ty, "param": nm, "id": i})
                else:
                    e.pop("collect")
            elif ty in OBJ_TYPES:
                ps.append({"name": nm, "kind": "obj", "cls": OBJ_TYPES[ty], **({"sizesym": "szof_P"} if OBJ_TYPES[ty] == "P" else {})})
                ob.append({"fn": "obs_" + OBJ_TYPES[ty], "param": nm, "id": i})
            elif ty in FN_TYPES:
                ps.append({"name": nm, "kind": "lazy"})
            else:
                raise Broken("param type " + ty)
        scen.append({"name": sc.name, "fn": "sc_" + sc.name, "params": ps, "observe": ob})
    d = {"classes": class_table(pr), "scenarios": scen}
    if pr.shape.get("vptr"):
        d["payload_range"] = [0x10000, 0x7fffffff0000]
    return d


SEED = "void sc_seed_oq0(OQ& out) { new (&out) OQ(); } void sc_seed_oq1(OQ& out, Q& q) { new (&out) OQ(std::move(q)); }"


class Outcome:
    def __init__(self, res, o, pre, params):
        self.res, self.o, self.pre, self.params = res, o, pre, params
        self.exit = o["exit"]
        self.ev = o["ev"]
        self.main = [e for e in self.ev if not e.get("post")]

    def calls(self):
        return [e for e in self.main if e["k"] == "call"]

    def obs(self, idx):
        return [e for e in self.ev if e["k"] == "obs" and e.get("post") and e["id"] == str(idx)]


def fn_short(d):
    """'FnR::operator()(P&&) const' -> ('FnR', 'P&&') ; 'operator==(P const&, Q const&)' """
    m = re.match(r"(.*?)\((?!\))(.*)\)( const)?$", d) or re.match(r"(.*?)\(\)(?: const)?$", d)
    name = d[:d.rindex("(")] if "(" in d else d
    depth = 0
    # find matching open paren of the final argument list
    end = d.rfind(")")
    i = end
    while i >= 0:
        if d[i] == ")":
            depth += 1
        elif d[i] == "(":
            depth -= 1
            if depth == 0:
                break
        i -= 1
    name, args = d[:i], d[i + 1:end]
    name = name.replace("std::hash<P>::operator()", "hash").replace("::operator()", "")
    return name, args


def state_of(obs):
    """observed abstract state of an option-like object"""
    if not obs:
        return "?", None
    e = obs[0]
    if e["engaged"] == "0":
        return None, e
    if e["engaged"] not in ("1",):
        return "?" + e["engaged"], e
    if len(obs) > 1:
        return tuple(x.get("tok", "?") for x in obs), e
    return e.get("tok", e["p"]), e


def tup_state(obs):
    return tuple((None if e["engaged"] == "0" else e.get("tok", "?")) for e in obs)


def brief(o):
    out = []
    for e in o.ev:
        if e["k"] in ("obs", "fork", "val"):
            continue
        k = e["k"]
        if k in ("ctor", "assign"):
            out.append("%s %s %s at %s%s [%s]" % (k, e.get("cls"), e.get("kind"), e.get("at"), " THREW" if e.get("threw") else "", e.get("loc")))
        elif k == "dtor":
            out.append("destroy %s at %s [%s]" % (e.get("cls"), e.get("at"), e.get("loc")))
        elif k == "call":
            out.append("call %s(%s)%s ret=%s [%s]" % (e["fn"], ", ".join(a.get("tok", a["v"]) for a in e["args"] if not a.get("this")), " THREW" if e.get("threw") else "", e.get("ret"), e.get("loc")))
        elif k in ("get_level", "set_level"):
            out.append("%s at %s %s [%s]" % (k, e.get("at"), e.get("level", e.get("ret")), e.get("loc")))
        else:
            out.append("%s %s" % (k, {a: b for a, b in e.items() if a not in ("k",)}))
    return "\n".join(out)


# finding categories -> owning property
def evaluate(pr, sc, res, pre_state, emit, ob):
    """emit(prop, key, msg, outcome); ob(prop, kind)"""
    params = parse_params(sc.params)
    p = {}
    for (cst, ty, nm) in params:
        if nm == "out":
            p[nm] = "<raw>"
        elif ty in OPT_TYPES:
            idx = res["pre"][nm]
            st = pre_state[(ty, idx)]
            if isinstance(st, str) and st.startswith("?"):
                return  # reported where the state was produced
            p[nm] = None if st is None else tuple(x.replace("V(a", "V(" + nm) for x in st) if isinstance(st, tuple) else st.replace("V(a", "V(" + nm)
        elif ty in OBJ_TYPES:
            p[nm] = "V(%s)" % nm
    exp = sc.spec(p, pr)
    grp = sc.groups
    desc = ", ".join("%s=%s" % (k, ("empty" if v is None else "engaged")) for k, v in p.items() if k in res["pre"])
    main_prop = grp[0]
    if not res["outcomes"]:
        emit("C01", "no-outcome", "no outcome", None)
    for raw in res["outcomes"]:
        o = Outcome(res, raw, p, params)

        def bad(prop, msg, o=o):
            emit(prop, "%s: %s" % (sc.name, msg), "%s [%s; exit %s]: %s" % (sc.name, desc, o.exit, msg), o)
        unw = o.exit == "unwind"
        # ---- faults
        life = "C02" if unw else "C01"
        ob(life, "lifetime path")
        verify_ok = exp.exit == "verify"
        for f in raw["faults"]:
            t = f.split(" @ ")
            bad(life, t[0] + (" at " + t[1] if len(t) > 1 else ""))
        # ---- exit
        if o.exit == "terminate":
            ob("C26", "terminate path")
            bad("C26", "an exception of user code ends in std::terminate")
            continue
        if o.exit in ("trap", "fault"):
            if not raw["faults"]:
                bad("C06", "execution is stopped")
            continue
        if o.exit == "verify":
            ob("C06", "check path")
            if not verify_ok:
                bad("C06" if main_prop in ("C06",) else main_prop, "precondition check fires although the operation's precondition holds")
            continue
        for e in o.main:
            if e["k"] == "mark":
                bad(main_prop, "a pointer obtained from the option does not denote its value (mark %s)" % e["n"])
        if raw.get("observer_exit"):
            bad(life, "the state of an operand cannot be observed afterwards (%s)" % raw["observer_exit"])
        if any(e["k"] in ("alloc", "dealloc") for e in o.main):
            bad("C17", "allocates or frees memory")
        gw = [w for w in raw["writes"] if w.startswith("global:")]
        if gw:
            bad("C17", "writes shared state %s" % gw)
        lib = [e for e in o.main if e["k"] == "lib_throw"]
        if unw:
            ob("C02", "exception path")
            th = [e for e in o.main if e["k"] == "throw"]
            if exp.exit == "libthrow":
                if not lib:
                    bad("C02", "exception of user code from an access operation")
                elif "bad_access" not in lib[-1]["type"]:
                    bad("C06", "throws %s instead of bad_access" % lib[-1]["type"])
            else:
                if lib:
                    bad(main_prop, "throws %s" % lib[-1]["type"])
                elif not th or th[-1]["exc"] != raw.get("exc"):
                    bad("C02", "the exception that reaches the caller is not the one that was thrown")
        else:
            if exp.exit == "verify":
                bad("C06", "the precondition check does not run for an empty option")
                continue
            if exp.exit == "libthrow":
                bad("C06", "no exception for an empty option")
                continue
            if [e for e in o.main if e["k"] == "throw"]:
                bad("C02", "an exception of user code is swallowed")
            if lib:
                bad("C06", "the library throws and swallows an exception")
        # ---- post states
        for i, (cst, ty, nm) in enumerate(params):
            if ty in FN_TYPES:
                continue
            if nm == "out" and unw:
                lv = [l for l in raw["mem"]["out"]["live"]]
                if any(class_table(pr).get(l[1], {}).get("dtor") for l in lv):
                    bad("C02", "object left alive in a result that was never returned")
                continue
            if sc.name == "dtor":
                lv = raw["mem"]["a"]["live"]
                if any(class_table(pr).get(l[1], {}).get("dtor") for l in lv):
                    bad("C01", "destroying the option does not destroy its value")
                if pr.dtor and p["a"] is not None and sum(1 for e in o.main if e["k"] == "dtor") != 1:
                    bad("C01", "destroying the option destroys its value %d times" % sum(1 for e in o.main if e["k"] == "dtor"))
                continue
            ob_i = o.obs(i)
            if ty == "TO":
                st, e = ("topt",) + tup_state(ob_i), None
            else:
                st, e = state_of(ob_i)
            if isinstance(st, str) and st.startswith("?"):
                bad(life, "%s is in an indeterminate state (%s)" % (nm, st))
                continue
            # liveness agrees with reported state
            if ty in ("O", "OQ", "OR") and not raw["faults"]:
                cls = {"O": "P", "OQ": "Q", "OR": "R"}[ty]
                if class_table(pr)[cls].get("dtor"):
                    ob(life, "liveness of " + cls)
                    lv = [l for l in raw["mem"][nm]["live"] if l[1] == cls]
                    if st is None and lv:
                        bad(life, "%s reports empty but an object is still alive in it" % nm)
                    if st is not None and (not lv or not e.get("live")):
                        bad(life, "%s reports a value but no live object is in it" % nm)
                elif st is not None and isinstance(st, str) and (st.startswith("?") or "uninit" in st or st.startswith("LVL(")):
                    bad(life, "%s reports a value but its storage holds no object (%s)" % (nm, st))
            if cst and ty in OPT_TYPES and nm in raw["writes"]:
                bad("C17", "writes to the const operand %s" % nm)
            pre = p[nm]
            if unw:
                want = exp.unw.get(nm, "same" if nm in res["pre"] else "any")
                if ty in OPT_TYPES:
                    ob("C02", "state after exception")
                    if want == "same" and (st is None) != (pre is None):
                        bad("C02", "after an exception %s is %s but it was %s" % (nm, "empty" if st is None else "engaged", "empty" if pre is None else "engaged"))
                    if want == "empty" and st is not None and not (pre is not None and False):
                        bad("C02", "after an exception %s is engaged" % nm)
                if cst and st != pre and nm != "out":
                    bad("C08", "const operand %s changed (%s -> %s)" % (nm, pre, st))
                continue
            # normal exit
            if nm in exp.post:
                w = exp.post[nm]
            elif cst or ty in OBJ_TYPES and False:
                w = pre
            else:
                continue
            ob(main_prop, "post state")
            prop = main_prop
            if nm != "out" and len(grp) > 1 and nm not in ("a",) or (nm == "a" and pre == w and "C08" in grp):
                prop = "C08" if "C08" in grp else main_prop
            if w == ANY:
                continue
            if w == ENG:
                if st is None:
                    bad(prop, "%s should hold a value but is empty" % nm)
                continue
            if isinstance(w, tuple) and w and w[0] == "tup":
                if st != (w[1], w[2]):
                    bad(prop, "%s is %s, expected %s" % (nm, st, w[1:]))
                continue
            if ty == "OREF":
                got = None if st is None else "ref:" + (e["p"] if e else "?")
                if got != w:
                    bad(prop, "%s is %s, expected %s" % (nm, got, w))
                continue
            ws = w if isinstance(w, (set, frozenset)) else {w}
            if st not in ws:
                if st is None or ws == {None}:
                    bad(prop, "%s is %s but should %s" % (nm, "empty" if st is None else "engaged", "hold a value" if st is None else "be empty"))
                else:
                    # moved-from source problems belong to C08
                    bad("C08" if ("C08" in grp and (any("moved" in str(x) for x in ws) or "moved" in str(st))) else prop, "%s holds %s, expected %s" % (nm, st, "/".join(sorted(map(str, ws)))))
        # ---- callbacks
        exp_calls = [c for c in exp.calls]
        got = []
        for e in o.calls():
            n, args = fn_short(e["fn"])
            if n in ("fnor_choice", "fnor_make", "defo_choice"):
                continue
            got.append((n, args, [a for a in e["args"] if not a.get("this")], e))
        n_exp = len(exp_calls)
        cbprop = {"cmp": "C09"}.get((exp.ops or ("",))[0] if exp.ops else "", None) or (main_prop if main_prop in ("C07", "C09", "C10", "C11", "C12", "C13", "C14", "C15") else "C07")
        ob(cbprop, "callback sequence")
        if not unw and len(got) != n_exp or len(got) > n_exp:
            bad(cbprop, "user functions called: %s, expected: %s" % ([g[0] for g in got], [c[0] for c in exp_calls]))
        for g, c in zip(got, exp_calls):
            cname = c[0]
            gname = {"PrV": "Pr", "defo_cb": "DefO"}.get(g[0], g[0])
            if gname != cname:
                bad(cbprop, "calls %s instead of %s" % (g[0], cname))
                continue
            if c[2] is None:
                continue
            toks = c[2] if isinstance(c[2], tuple) else (c[2],)
            cats = c[1] if isinstance(c[1], tuple) else (c[1],)
            ga = g[2]
            if cname in ("operator<<", "operator>>"):
                ga = ga[1:]
            gt = tuple(a.get("tok") for a in ga)
            gc = tuple(a.get("type") for a in ga)
            if gt != toks:
                bad(cbprop, "%s receives %s instead of %s" % (g[0], gt, toks))
            if gc != cats and not (pr.const and False):
                bad("C08" if "C08" in grp else cbprop, "%s receives its argument as %s instead of %s" % (g[0], gc, cats))
            # argument is the contained object itself
            for a, (k) in zip(ga, toks):
                m = re.match(r"V\((\w+)\)$", k or "")
                if m and m.group(1) in res["pre"]:
                    if not re.match(r"&%s(\+\d+)?$" % m.group(1), a["v"]):
                        bad("C08" if "C08" in grp else cbprop, "%s receives a copy of the value of %s" % (g[0], m.group(1)))
        # ---- return value
        if not unw and exp.ret is not None and exp.ret != ANY and sc.ret != "void":
            ob(main_prop, "result")
            r = raw.get("ret")
            kind, _, arg = exp.ret.partition(":")
            if kind == "val":
                i = [q[2] for q in params].index(arg)
                oo = o.obs(i)
                addr = oo[0]["p"] if oo else None
                if r != addr:
                    bad(main_prop, "returns %s, not the contained object (%s)" % (r, addr))
            elif kind == "opt" or kind == "obj":
                if r != "&" + arg:
                    bad(main_prop, "returns %s, not %s" % (r, arg))
            elif kind == "null":
                if r != "0":
                    bad(main_prop, "returns %s, not null" % r)
            elif kind == "bool":
                if r != arg:
                    bad(main_prop, "returns %s, expected %s" % ({"1": "true", "0": "false"}.get(r, r), {"1": "true", "0": "false"}[arg]))
            elif kind == "call":
                cs = [e.get("ret") for e in o.calls()]
                if not cs or r != cs[-1]:
                    bad(main_prop, "returns %s although the user function returned %s" % (r, cs[-1:]))
            elif kind == "callv":
                cs = [e.get("ret") for e in o.calls()]
                if not cs or r != cs[-1]:
                    bad(main_prop, "returns %s although the user function returned %s" % (r, cs[-1:]))
            elif kind == "const":
                if not re.match(r"\d+$", r or ""):
                    bad(main_prop, "returns %s which is not a constant" % r)
        # ---- operation constraints
        if not unw:
            op_constraints(pr, sc, exp, o, p, params, bad, ob, main_prop)


def events_at(o, kinds, addr):
    return [e for e in o.main if e["k"] in kinds and e.get("at") == addr and not e.get("threw")]


def op_constraints(pr, sc, exp, o, p, params, bad, ob, main_prop):
    names = [q[2] for q in params]

    def addr(nm):
        for x in o.obs(names.index(nm)):
            if x["engaged"] == "1":
                return x["p"]
        return None
    for c in exp.ops or ():
        k, _, nm = c.partition(":")
        if k == "assigns":
            ob(main_prop, "assigned in place")
            a = addr(nm)
            conv = any(q[1] in ("Q", "OQ") for q in params)
            rv = any(q[2] in ("b", "q", "x") and not q[0] for q in params)
            if conv:
                silent = False
            else:
                which = pr.ma if rv and pr.ma != "none" else pr.ca
                silent = which == "triv" or which == "none" and pr.ca == "triv"
            if pr.aggregate or silent:
                continue
            if len(events_at(o, ("assign",), a)) != 1:
                bad(main_prop, "an engaged option is not assigned through the contained object's assignment")
            elif not conv:
                want = "copy" if not rv or pr.ma == "none" else "move"
                e = events_at(o, ("assign",), a)[0]
                if e["kind"] != want:
                    bad("C08", "assignment uses the %s assignment of the contained object" % e["kind"])
        elif k == "nodestroy":
            ob(main_prop, "not destroyed on assignment")
            if events_at(o, ("dtor",), addr(nm)):
                bad(main_prop, "assignment between engaged options destroys the contained object")
        elif k == "constructs":
            ob(main_prop, "constructed")
            if events_at(o, ("assign",), addr(nm)):
                bad(main_prop, "assignment operator used on an object that does not exist")
        elif k == "destroys":
            ob(main_prop, "destroyed")
            if pr.dtor and not [e for e in o.main if e["k"] == "dtor"]:
                bad(main_prop, "the previous value is not destroyed")
        elif k == "nocopy":
            ob("C08", "no copies")
            if pr.mc == "none" or pr.const:
                continue
            for e in o.main:
                if e["k"] in ("ctor", "assign") and e.get("kind") in ("copy", "convcopy", "copy_nonconst", "move_const") and e.get("cls") in ("P", "Q", "R") :
                    bad("C08", "copies the value of an rvalue operand (%s %s)" % (e["kind"], e["k"]))
                    break
        elif k == "direct":
            ob(main_prop, "constructed in place")
            if [e for e in o.main if e["k"] in ("ctor", "assign") and e.get("cls") == "P" and e.get("kind") in ("copy", "move", "copy_nonconst", "move_const")]:
                bad(main_prop, "copies or moves a value that is to be constructed in place from the arguments")
        elif k == "noctor":
            ob(main_prop, "nothing constructed")
            if [e for e in o.main if e["k"] in ("ctor", "assign", "dtor") and e.get("cls") in ("P", "Q")]:
                bad(main_prop, "constructs or assigns although the option already holds a value")
        elif k in ("pure",):
            ob("C17", "pure query")
            if o.o["writes"]:
                bad("C17", "a query writes to %s" % o.o["writes"])
            if [e for e in o.main if e["k"] in ("ctor", "assign", "dtor", "call", "set_level")]:
                bad("C17", "a query runs operations of the contained type")
        elif k == "cmp":
            ob("C17", "pure comparison")
            if [e for e in o.main if e["k"] in ("ctor", "assign", "dtor", "set_level")] or o.o["writes"]:
                bad("C17", "a comparison copies or modifies its operands")
        elif k == "pure_but_calls":
            ob("C17", "pure query")
            if [e for e in o.main if e["k"] in ("ctor", "assign", "dtor", "set_level")] or o.o["writes"]:
                bad("C17", "a query copies or modifies its operands")
        elif k == "takeif":
            ob("C04", "take_if result")
            r = [e for e in o.calls() if fn_short(e["fn"])[0] == "Pr"]
            if not r:
                continue
            so, _ = state_of(o.obs(names.index("out")))
            sa, _ = state_of(o.obs(names.index("a")))
            v = p["a"]
            ok_toks = {v, "modified(%s)" % v}
            if r[0]["ret"] == "1":
                if so not in ok_toks or sa is not None:
                    bad("C04", "accepted by the predicate: result %s, option %s" % (so, sa))
            else:
                if so is not None or sa not in ok_toks:
                    bad("C04", "rejected by the predicate: result %s, option %s" % (so, sa))
        elif k in ("filter_lv", "filter_rv"):
            ob("C07", "filter result")
            r = [e for e in o.calls() if fn_short(e["fn"])[0] == "PrV"]
            if not r:
                continue
            so, _ = state_of(o.obs(names.index("out")))
            sa, _ = state_of(o.obs(names.index("a")))
            v = p["a"]
            toks = {v, "modified(%s)" % v}
            if r[0]["ret"] == "1":
                if so not in toks:
                    bad("C07", "accepted by the predicate: result %s" % so)
                if k == "filter_rv" and not pr.const:
                    okm = set()
                    for t in toks:
                        okm |= pr.moved(t)
                    if sa not in okm:
                        bad("C08", "filter on an rvalue leaves %s in the option" % sa)
                elif sa not in toks:
                    bad("C08", "filter on an lvalue leaves %s in the option" % sa)
            else:
                if so is not None:
                    bad("C07", "rejected by the predicate: result %s" % so)
                if sa not in toks:
                    bad("C08", "filter changes the option to %s although the value was rejected" % sa)
        elif k == "andthen":
            ob("C07", "and_then result")
            so, _ = state_of(o.obs(names.index("out")))
            ch = [e for e in o.calls() if fn_short(e["fn"])[0] == "fnor_choice"]
            if ch and (ch[0]["ret"] == "1") != (so is not None):
                bad("C07", "result is %s although the function returned %s" % (so, "a value" if ch[0]["ret"] == "1" else "none"))
            if so is not None and so != "ret:fnor_make":
                bad("C07", "result holds %s" % so)
        elif k == "orelse":
            ob("C07", "or_else result")
            so, _ = state_of(o.obs(names.index("out")))
            ch = [e for e in o.calls() if fn_short(e["fn"])[0] == "defo_choice"]
            if ch and (ch[0]["ret"] == "1") != (so is not None):
                bad("C07", "result is %s although the function returned %s" % (so, "a value" if ch[0]["ret"] == "1" else "none"))


def run_probe(work, pr, std, select=None, tag="", flags=()):
    """returns (engine output, scenarios analysed, ill-formed scenarios [(name, groups, diag)])"""
    scs = [sc for sc in catalogue() if sc.need(pr) and (select is None or select(sc))]
    if pr.shape.get("ebo"):  # std::tuple lays such an element over its neighbour: not modelled
        scs = [sc for sc in scs if not re.search(r"\b(OT|TO|TT)\b", sc.params + sc.body)]
    return run_unit(work, pr, std, scs, tag, flags)


def compile_unit(work, name, mk, scs, std, flags=()):
    """mk(scs) -> (prefix, [one line per scenario], suffix).  Scenarios that do not compile are dropped one
    diagnostic round at a time (a diagnostic is attributed through the instantiation notes to the line of the
    scenario that caused it).  Returns (bc, scs, bad)."""
    bad = []
    scs = list(scs)
    for rnd in range(12):
        pre, lines, suf = mk(scs)
        first = pre.count("\n") + 1
        bc, diag = core.lower(work, name, pre + "\n".join(lines) + "\n" + suf, std, flags=flags)
        if bc is not None:
            return bc, scs, bad
        cur, culprits, other = None, {}, []
        chunks, buf = [], []
        for l in diag.split("\n"):
            if re.search(r"(?:^|\s)(fatal )?error: ", l) and buf:
                chunks.append(buf)
                buf = []
            buf.append(l)
        chunks.append(buf)
        for c in chunks:
            if not any("error: " in l for l in c):
                continue
            hit = None
            for l in c:
                m = re.match(re.escape(work.path(name + ".cpp")) + r":(\d+):", l)
                if m and first <= int(m.group(1)) < first + len(scs):
                    hit = int(m.group(1)) - first
            if hit is None:
                other.append("\n".join(c))
            else:
                culprits.setdefault(hit, "\n".join(c))
        if not culprits:
            return None, [], bad + [("<declarations>", ["C25"], diag)]
        bad += [(scs[i].name, scs[i].groups, d) for i, d in sorted(culprits.items())]
        scs = [x for i, x in enumerate(scs) if i not in culprits]
    raise Broken("unit %s does not compile: %s" % (name, diag[:2000]))


def run_unit(work, pr, std, scs, tag="", flags=()):
    name = "%s_%s%s" % (pr.name, std.replace("+", "p"), tag)

    def mk(ss):
        base = unit_source(pr, []).rstrip()
        assert base.endswith("}")
        return base[:-1], [scen_source(x) for x in ss], SEED + "}\n"
    bc, scs, bad = compile_unit(work, name, mk, scs, std, flags=flags)
    if bc is None:
        return None, [], bad, name
    cfg = config(pr, scs)
    cfg["scenarios"] += [{"name": "seed_oq0", "fn": "sc_seed_oq0", "params": [{"name": "out", "kind": "raw", "sizesym": "szof_OQ", "collect": "OQ"}]},
                         {"name": "seed_oq1", "fn": "sc_seed_oq1", "params": [{"name": "out", "kind": "raw", "sizesym": "szof_OQ", "collect": "OQ"}, {"name": "q", "kind": "obj", "cls": "Q"}]}]
    out = core.analyse(work, name, bc, cfg)
    return out, scs, bad, name


CLS_OF = {"O": ["P"], "OQ": ["Q"], "OR": ["R"], "OT": ["P", "Q"]}


def pre_states(out, classes=None):
    """abstract value of every inferred image; images that are inconsistent (engagement and liveness disagree,
    or engagement is not determined) are reported where they are produced and not propagated further"""
    st = {}
    for r in out["results"]:
        if r["scenario"].startswith("pre_"):
            ty = r["scenario"][4:]
            outs = set()
            for o in r["outcomes"]:
                ob = [e for e in o["ev"] if e["k"] == "obs"]
                s, e = state_of(ob)
                if o["faults"]:
                    s = "?" + o["faults"][0]
                elif classes and any(classes.get(c, {}).get("dtor") for c in CLS_OF.get(ty, [])):
                    n = sum(1 for l in o["mem"]["a"]["live"] if classes.get(l[1], {}).get("dtor"))
                    w = sum(1 for c in CLS_OF[ty] if classes.get(c, {}).get("dtor"))
                    if n != (0 if s is None else w):
                        s = "?engagement and lifetime disagree"
                outs.add(s)
            st[(ty, r["pre"]["a"])] = outs.pop() if len(outs) == 1 else "?ambiguous"
    return st
