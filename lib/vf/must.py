"""Assertion units: scenario functions written against the public interface whose MUST conditions have to hold
on every abstract path.  Conditions are decided by the abstract interpreter, not by running anything.

Scenario text:
    @ name | groups | parameters | flags
    body ...
Inside a body
    MUST(c)      c holds on every path that reaches this point
    CALLS(n)     exactly n user functions were called since the last RESET (nd() and friends do not count)
    NOEV         no user operation at all since the last RESET (no construction, assignment, destruction, call)
    COPIES(n) MOVES(n) DTORS(n) ASSIGNS(n)   number of such operations of contained objects since the last RESET
    RESET        start counting anew
    nd()         an arbitrary bool
flags: throws (user exceptions may leave), mustverify (every path ends in the precondition check),
    mustthrow (every path ends in opt::bad_access), exact (no outcome may be missing)"""
import re
from . import core, sem
from .core import Broken

HEAD = r'''
#include "verif_pre.hpp"
extern "C" bool nd() noexcept; extern "C" void obs_mark(int) noexcept;
#define MUSTN(n, ...) do { if (!(__VA_ARGS__)) obs_mark(n); } while (0)
#define CALLS(n) obs_mark(100000 + (n))
#define NOEV obs_mark(200000)
#define RESET obs_mark(300000)
#define COPIES(n) obs_mark(400000 + (n))
#define MOVES(n) obs_mark(500000 + (n))
#define DTORS(n) obs_mark(600000 + (n))
#define ASSIGNS(n) obs_mark(700000 + (n))
#define UNREACHABLE obs_mark(900000)
'''
HELPERS = ("nd", "nd_", "sym_")


class MSc:
    def __init__(self, name, groups, params, body, flags):
        self.name, self.groups, self.params, self.body, self.flags = name, groups, params, body, flags
        self.conds = []
        self.ret = "void"


def number(body, conds, base=0):
    out, i = "", 0
    while True:
        m = re.compile(r"\bMUST\(").search(body, i)
        if not m:
            return out + body[i:]
        d, j = 1, m.end()
        while d:
            c = body[j]
            d += (c == "(") - (c == ")")
            j += 1
        conds.append(body[m.end():j - 1])
        out += body[i:m.start()] + "MUSTN(%d, %s)" % (base + len(conds), body[m.end():j - 1])
        i = j


def parse(text):
    L = []
    for blk in re.split(r"^@", text, flags=re.M)[1:]:
        head, _, body = blk.partition("\n")
        f = [x.strip() for x in head.split("|")]
        while len(f) < 4:
            f.append("")
        body = " ".join(re.sub(r"//.*", "", l).strip() for l in body.split("\n")).strip()
        sc = MSc(f[0], f[1].split(), f[2], body, set(f[3].split()))
        sc.src = number(body, sc.conds)
        L.append(sc)
    return L


class Unit:
    def __init__(self, name, prelude, text, classes=None, defs=(), flags=(), stds=("c++17", "c++20"), thorough_stds=("c++23",), inc_head=True, before=""):
        self.name, self.prelude, self.classes, self.defs, self.flags, self.stds = name, prelude, classes or {}, defs, flags, stds
        self.thorough_stds, self.before = thorough_stds, before
        self.scs = parse(text)
        self.pre_conds = []
        self.prelude = number(prelude, self.pre_conds, 20000)  # conditions inside shared helpers
        names = [s.name for s in self.scs]
        assert len(names) == len(set(names)), [n for n in names if names.count(n) > 1]


def params_of(sc):
    """-> (C++ parameter list, engine parameters, const names)"""
    cpp, eng, consts = [], [], []
    for p in [x.strip() for x in sc.params.split(",") if x.strip()]:
        m = re.match(r"(const )?([\w:]+)(&|\*)? (\w+)(?:\s*\[(.*)\])?(?:\s*=\s*(\S+))?$", p)
        if not m:
            raise Broken("parameter '%s' of %s" % (p, sc.name))
        cst, ty, ref, nm, rng, val = m.groups()
        if ref:
            cpp.append("%s%s%s %s" % (cst or "", ty, ref, nm))
            mb = re.match(r"Bytes(\d+)$", ty)
            if mb:
                eng.append({"name": nm, "kind": "bytes", "size": int(mb.group(1))})
            elif ty.startswith("Raw"):
                eng.append({"name": nm, "kind": "raw", "sizesym": "szof_" + ty})
            elif ty[0] == "F" or ty.startswith("Lazy"):
                eng.append({"name": nm, "kind": "lazy"})
            else:
                eng.append({"name": nm, "kind": "obj", "cls": ty})
            if cst:
                consts.append(nm)
        else:
            w = {"int": 32, "unsigned": 32, "bool": 1, "U64": 64, "size_t": 64, "long": 64, "char": 8, "short": 16, "u8": 8, "u16": 16, "u32": 32}[ty]
            e = {"name": nm, "kind": "int", "width": w}
            if val:
                e["value"] = val
            elif rng:
                rs = []
                for q in rng.split(";"):
                    lo, _, hi = q.partition("..")
                    rs.append([str(int(lo, 0)), str(int(hi or lo, 0))])
                e["ranges"] = rs
            if ty in ("bool",):
                e["width"] = 1
            cpp.append("%s %s" % (ty, nm))
            eng.append(e)
    return ", ".join(cpp), eng, consts


def source(sc):
    return 'extern "C" void sc_%s(%s) { %s }' % (sc.name, params_of(sc)[0], sc.src)


def evaluate(unit, sc, res, emit, ob):
    consts = params_of(sc)[2]
    g0 = sc.groups[0]
    for raw in res["outcomes"]:
        o = sem.Outcome(res, raw, {}, [])

        def bad(prop, msg, o=o):
            emit(prop, "%s: %s" % (sc.name, msg), "%s [exit %s]: %s" % (sc.name, o.exit, msg), o)
        ob(g0, "path")
        for f in raw["faults"]:
            t = f.split(" @ ")
            bad("C01" if o.exit != "unwind" else "C02", t[0] + (" at " + t[1] if len(t) > 1 else ""))
        # assertions
        cnt = {"call": 0, "copy": 0, "move": 0, "dtor": 0, "assign": 0, "any": 0}
        threw = False
        for e in o.main:
            k = e["k"]
            if k == "mark":
                n = int(e["n"])
                if n < 100000:
                    bad(g0, "does not hold: %s" % (unit.pre_conds[n - 20001] if 20000 < n <= 20000 + len(unit.pre_conds) else sc.conds[n - 1] if n <= len(sc.conds) else "the element exists"))
                elif n // 100000 == 1:
                    ob(g0, "call count")
                    if cnt["call"] != n - 100000:
                        bad(g0, "%d user functions were called instead of %d" % (cnt["call"], n - 100000))
                elif n // 100000 == 2:
                    ob(g0, "no user operation")
                    if cnt["any"]:
                        bad(g0, "user operations are performed on an object that must not be touched")
                elif n // 100000 == 3:
                    cnt = dict.fromkeys(cnt, 0)
                elif n // 100000 in (4, 5, 6, 7):
                    key = {4: "copy", 5: "move", 6: "dtor", 7: "assign"}[n // 100000]
                    ob(g0, "operation count")
                    if cnt[key] != n % 100000:
                        bad(g0, "%d %s operations instead of %d" % (cnt[key], key, n % 100000))
                elif n == 900000:
                    bad(g0, "reaches a point that must not be reached")
                continue
            if k == "ctor":
                cnt["any"] += 1
                if e.get("kind", "").find("copy") >= 0 or e.get("kind") == "move_const":
                    cnt["copy"] += 1
                elif "move" in e.get("kind", ""):
                    cnt["move"] += 1
            elif k == "assign":
                cnt["any"] += 1
                cnt["assign"] += 1
                cnt["copy" if "copy" in e.get("kind", "") else "move"] += 1
            elif k == "dtor":
                cnt["any"] += 1
                cnt["dtor"] += 1
            elif k == "call":
                n = (sem.fn_short(e["fn"])[0] if "(" in e["fn"] else e["fn"]).split("::")[-1]
                if n == "nd" or n.startswith(("nd_", "sym_")):
                    continue
                cnt["any"] += 1
                cnt["call"] += 1
            elif k in ("alloc", "dealloc") and "alloc" not in sc.flags:
                bad("C17", "allocates or frees memory")
            if e.get("threw"):
                threw = True
        if o.exit == "terminate":
            bad("C26", "an exception ends in std::terminate")
        elif o.exit in ("trap", "fault"):
            if not raw["faults"]:
                bad(g0, "execution is stopped")
        elif o.exit == "verify":
            if not sc.flags & {"mustverify", "mayverify"}:
                bad(g0, "the precondition check fires although the precondition holds")
        elif o.exit == "unwind":
            lib = [e for e in o.main if e["k"] == "lib_throw"]
            if lib and not (sc.flags & {"mustthrow", "maythrow"}):
                bad(g0, "throws %s" % lib[-1]["type"])
            if not lib and "throws" not in sc.flags and "mustthrow" not in sc.flags:
                bad("C02", "an exception leaves the operation")
            if "mustthrow" in sc.flags and (not lib or "bad_access" not in lib[-1]["type"]):
                bad(g0, "does not end in opt::bad_access")
        else:
            if "mustverify" in sc.flags:
                bad(g0, "the precondition check does not run")
            if "mustthrow" in sc.flags:
                bad(g0, "opt::bad_access is not thrown")
        gw = [w for w in raw["writes"] if w.startswith("global:")]
        if gw and "global" not in sc.flags:
            bad("C17", "writes shared state %s" % gw)
        for c in consts:
            if c in raw["writes"]:
                bad("C17", "writes to the const operand %s" % c)
    if not res["outcomes"]:
        emit(g0, sc.name + ": no outcome", sc.name + ": no outcome", None)


def build(work, unit, std, scs, tag="", flags=()):
    name = "%s_%s%s" % (unit.name, std.replace("+", "p"), tag)
    defs = "".join("#define %s\n" % d.replace("=", " ", 1) for d in unit.defs)

    def mk(ss):
        return defs + unit.before + HEAD + unit.prelude.rstrip() + "\n", [source(x) for x in ss], ""
    bc, ok, bad = sem.compile_unit(work, name, mk, scs, std, flags=list(unit.flags) + list(flags))
    if bc is None:
        return None, [], bad, name
    cfg = {"classes": unit.classes, "scenarios": [{"name": s.name, "fn": "sc_" + s.name, "params": params_of(s)[1]} for s in ok]}
    return core.analyse(work, name, bc, cfg), ok, bad, name


EVERYWHERE = ("C17", "C26")


def make_part(units):
    def run(rep, work, tier):
        jobs = []
        for u in units:
            scs = [s for s in u.scs if rep.prop in s.groups or rep.prop in EVERYWHERE or (rep.prop in ("C01", "C02") and u.classes)]
            if scs:
                for std in u.stds + (u.thorough_stds if tier == "thorough" else ()):
                    jobs.append((u, std, scs))
        if not jobs:
            return

        def one(j):
            return j, build(work, *j)
        for (u, std, scs), (out, ok, bad, name) in core.pmap(one, jobs):
            rep.units += 1
            for (n, groups, diag) in bad:
                if rep.prop in groups or n == "<declarations>":
                    m = re.search(r"error: (.*)", diag)
                    rep.violation("ill-formed %s/%s: %s" % (u.name, n, m.group(1) if m else ""),
                                  "%s/%s (-std=%s) does not compile: %s" % (u.name, n, std, m.group(1) if m else diag[:300]), diag[:4000])
            if out is None:
                continue
            rep.functions |= set(out.get("functions", []))
            by = {s.name: s for s in ok}
            for r in out["results"]:
                sc = by[r["scenario"]]
                rep.paths += len(r["outcomes"])
                rep.ob("scenario")
                rep.ob("assertion", len(sc.conds))

                def emit(cat, key, msg, o):
                    if cat == rep.prop or rep.prop in sc.groups:
                        rep.violation("%s/%s" % (u.name, key), "[%s, -std=%s] %s\n  in: void sc(%s) { %s }" % (u.name, std, msg, sc.params, sc.body), sem.brief(o) if o else "")

                def ob(cat, kind):
                    if cat == rep.prop or rep.prop in sc.groups:
                        rep.ob(kind)
                evaluate(u, sc, r, emit, ob)
                if rep.prop in sc.groups:
                    rep.sample("%s: %s" % (sc.name, sc.body[:160]))
        r = "every asserted condition holds on every abstract path"
        if r not in rep.rules:
            rep.rules.append(r)
    return run
