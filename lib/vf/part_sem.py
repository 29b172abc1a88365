"""Part: abstract interpretation of the option operations over the opaque probe classes."""
import re
from . import core, sem, probes
from .ops import catalogue

# scenarios that are always analysed because they produce the operand states of the others
PRODUCERS = {"ctor_default", "ctor_copy", "ctor_move", "ctor_val_lv", "ctor_inplace1", "ctor_opt_conv_rv", "emplace", "reset", "assign_none",
             "assign_move", "make_ot", "zip_lv"}
EVERYWHERE = ("C01", "C02", "C17", "C26")


def wants(prop, groups):
    return prop in EVERYWHERE or prop in groups


def belongs(prop, cat, groups):
    """a deviation found in a scenario is evidence against the category it was classified under and against
    the properties the scenario states"""
    return cat == prop or prop in groups


def units(prop, tier):
    core_p = probes.core_probes(tier)
    u = [(p, s, ()) for p in core_p for s in ("c++17", "c++20")]
    u += [(p, "c++17", ()) for p in probes.shape_probes()]
    if prop in ("C01", "C02", "C03", "C24") or tier == "thorough":
        u += [(p, "c++17", ()) for p in probes.triviality_probes()]
    if tier == "thorough":
        u += [(p, "c++20", ()) for p in probes.triviality_probes() + probes.shape_probes()]
        u += [(p, "c++23", ()) for p in core_p]
    return u


def run(rep, work, tier):
    prop = rep.prop
    us = units(prop, tier)
    sel = lambda sc: wants(prop, sc.groups) or sc.name in PRODUCERS
    n_sc = {}

    def one(u):
        pr, std, fl = u
        return u, sem.run_probe(work, pr, std, sel)
    for u, (out, scs, bad, name) in core.pmap(one, us):
        pr, std, fl = u
        rep.units += 1
        for (n, groups, diag) in bad:
            if prop in groups or n == "<declarations>":
                m = re.search(r"error: (.*)", diag)
                rep.violation("ill-formed %s: %s" % (n, m.group(1) if m else ""), "%s (-std=%s, contained type '%s') does not compile: %s" % (
                    n, std, pr.name, m.group(1) if m else diag[:300]), diag[:4000])
        if out is None:
            continue
        rep.functions |= set(out.get("functions", []))
        consume(rep, out, scs, lambda n: sem.class_table(pr), pr, "%s, -std=%s" % (pr.name, std), sem.evaluate)
    rep.rules.append("every abstract outcome (normal and exceptional) of every operation on every reachable abstract pre-state has the documented post-state, "
                     "result, user-function calls and object lifetimes")
    rep.assumptions += ["user operations of the contained type are arbitrary but keep to the C++ object model: a constructor that throws leaves no object, "
                        "an assignment that throws leaves the object alive, level accessors of a customization satisfy the documented contract"]


def consume(rep, out, scs, classes, pr, where, evaluate):
    prop = rep.prop
    pre = sem.pre_states(out, classes(None))
    by = {s.name: s for s in scs if wants(prop, s.groups)}
    seen_sc = set()
    for r in out["results"]:
        sc = by.get(r["scenario"])
        if not sc:
            continue
        seen_sc.add(sc.name)
        rep.paths += len(r["outcomes"])

        def emit(cat, key, msg, o):
            if belongs(prop, cat, sc.groups):
                rep.violation(key, "[%s] %s\n  in: %s" % (where, msg, sem.src_of(sc)), sem.brief(o) if o else "")

        def ob(cat, kind):
            if belongs(prop, cat, sc.groups):
                rep.ob(kind)
        evaluate(pr, sc, r, pre, emit, ob)
    rep.ob("scenario", len(seen_sc))
    missing = set(by) - seen_sc
    if missing:
        # no abstract pre-state reached the scenario: an operand state that the library should be able to
        # produce was never produced
        for m in sorted(missing):
            if prop in by[m].groups or prop in ("C01", "C03"):
                rep.violation("unreached " + m, "[%s] no consistent operand state is reachable for scenario %s" % (where, m))
    return seen_sc
