"""Part: the analyses of the other properties repeated under the documented configurations of the library.
A deviation found in any configuration is a violation of C29: the specification does not mention configurations."""
import copy, re
from . import core, sem, must, probes, tl, part_sem, units_ref, units_core, units_traits, units_nest, units_wrap, units_types, units_over, \
    units_misuse, units_noexcept, units_constexpr, units_conf

AI = units_ref.UNITS + units_core.UNITS + units_traits.UNITS + units_nest.UNITS + units_wrap.UNITS
TYPES = units_types.UNITS + units_over.UNITS + units_misuse.UNITS + units_noexcept.UNITS + units_constexpr.UNITS
NEED_TRAITS = {"traits", "comp", "str", "sizes"}


class Conf:
    def __init__(self, name, flags, ai=True, types=True, skip=(), mode="", omit="$^"):
        self.name, self.flags, self.ai, self.types, self.skip, self.mode = name, list(flags), ai, types, set(skip), mode
        self.omit = re.compile(omit)  # scenarios about something the configuration turns off or that clang cannot show

QUICK_CXX = {"builtin traits off": "g++", "no forward declarations": "clang++", "PFR off": "g++", "annotation checking": "clang++", "default check, NDEBUG": "g++"}
QUICK_PROBES = {"throwing", "trivial", "moveonly_throw", "traits_nontriv", "traits_trivial", "const_traits"}
GCC_ENUM = r"\w*enum|comp_pair_fd|comp_live_pair_fd"  # spelled by gcc's __PRETTY_FUNCTION__, which clang does not produce; g++ decides it in the type-level part

CONFS = [
    Conf("builtin traits off", ["-DOPTION_USE_BUILTIN_TRAITS=0"], skip=NEED_TRAITS,
         omit=r"(as_option_bool|as_option_ptr|member_levels|enforce_\w+|sent_order_of_docs|sf_member|member_store|member_nested_option|member_enum|w_member_option|sm_wrappers|traits_ok_\w+|as_option_\w+|padding_type|plain_22)$"),
    Conf("no forward declarations", ["-DOPTION_FORWARD_DECLARE_STD=0"]),
    Conf("PFR off", ["-DOPTION_USE_PFR=0"], skip={"comp"}),
    Conf("PFR on", ["-DOPTION_USE_PFR=1"]),
    Conf("PFR file", ["-DOPTION_PFR_FILE=<boost/pfr.hpp>"], types=False),
    Conf("annotation checking", ["-DOPTION_CONSUMED_ANNOTATION_CHECKING=1"]),
    Conf("default check, debug", ["-DVERIF_DEFAULT_VERIFY"], mode="trap"),
    Conf("default check, NDEBUG", ["-DVERIF_DEFAULT_VERIFY", "-DNDEBUG"], mode="assume"),
    Conf("libassert", ["-DVERIF_DEFAULT_VERIFY", '-DOPTION_LIBASSERT_FILE="conf/libassert_stub.hpp"', "-DOPTION_USE_LIBASSERT=1"], types=False),
    Conf("gcc branches", ['-DVERIF_PRE_OPTION="conf/as_gcc.hpp"', "-Wno-enum-constexpr-conversion", "-DVERIF_DEFAULT_VERIFY"], types=False, mode="trap", omit=GCC_ENUM),
    Conf("gcc branches, NDEBUG", ['-DVERIF_PRE_OPTION="conf/as_gcc.hpp"', "-Wno-enum-constexpr-conversion", "-DVERIF_DEFAULT_VERIFY", "-DNDEBUG"], types=False, mode="assume", omit=GCC_ENUM),
]


def adapt(res, mode):
    """outcomes of a configuration whose precondition check is not opq_verify_fail"""
    if not mode:
        return res
    r = copy.copy(res)
    outs = []
    for o in res["outcomes"]:
        if mode == "trap" and o["exit"] == "trap":
            o = dict(o, exit="verify")
        elif mode == "assume" and any(f.startswith(("assumption that does not hold", "control reaches a point assumed unreachable")) for f in o["faults"]):
            # the precondition is violated: nothing is promised about what follows
            o = dict(o, exit="verify", faults=[], ev=[], writes=[])
        outs.append(o)
    r["outcomes"] = outs
    return r


def ai_jobs(c, tier):
    std = ("c++20",) if tier == "quick" else ("c++17", "c++20", "c++23")
    for u in AI:
        if u.name in c.skip or ("PFR" in c.name and any("PFR" in d for d in u.defs)):
            continue
        for s in std:
            if s in u.stds + u.thorough_stds or tier == "thorough":
                yield ("must", c, u, s)
            elif s == "c++20" and u.stds == ("c++17",):
                yield ("must", c, u, "c++17")
    for p in probes.core_probes(tier):
        if tier == "quick" and p.name not in QUICK_PROBES:
            continue
        for s in std:
            yield ("sem", c, p, s)


def run(rep, work, tier):
    jobs = [j for c in CONFS if c.ai for j in ai_jobs(c, tier)]

    def one(j):
        kind, c, u, std = j
        tag = "_" + re.sub(r"\W", "_", c.name)
        if kind == "must":
            return j, must.build(work, u, std, [x for x in u.scs if not c.omit.match(x.name)], tag=tag, flags=c.flags)
        return j, sem.run_probe(work, u, std, None, tag=tag, flags=c.flags)
    for (kind, c, u, std), (out, ok, bad, name) in core.pmap(one, jobs):
        rep.units += 1
        for (n, groups, diag) in bad:
            m = re.search(r"error: (.*)", diag)
            rep.violation("[%s] ill-formed %s/%s: %s" % (c.name, u.name, n, m.group(1) if m else ""),
                          "[%s, -std=%s] %s/%s does not compile: %s" % (c.name, std, u.name, n, m.group(1) if m else diag[:300]), diag[:4000])
        if out is None:
            continue
        rep.functions |= set(out.get("functions", []))
        by = {s.name: s for s in ok}
        pre = sem.pre_states(out, sem.class_table(u)) if kind == "sem" else None
        for r in out["results"]:
            sc = by.get(r["scenario"])
            if not sc:
                continue
            r = adapt(r, c.mode)
            rep.paths += len(r["outcomes"])
            rep.ob("scenario")
            verify_wanted = [False]

            def emit(cat, key, msg, o):
                if c.mode == "assume" and ("the precondition check does not run" in key):
                    return  # without assertions nothing checks
                body = "void sc(%s) { %s }" % (sc.params, sc.body)
                rep.violation("[%s] %s/%s" % (c.name, u.name, key), "[%s, -std=%s] %s\n  in: %s" % (c.name, std, msg, body), sem.brief(o) if o else "")

            def ob(cat, kd):
                rep.ob(kd)
            if kind == "must":
                must.evaluate(u, sc, r, emit, ob)
            else:
                sem.evaluate(u, sc, r, pre, emit, ob)
    rep.rules.append("the specification of every operation holds unchanged in every documented configuration")


def run_types(rep, work, tier):
    jobs = []
    for c in CONFS:
        if not c.types or tier == "quick" and c.name not in QUICK_CXX:
            continue
        for u in TYPES:
            if u.name in c.skip or ("PFR" in c.name and any("PFR" in d for d in u.defs)):
                continue
            for cxx in u.cxx:
                if tier == "quick" and cxx != QUICK_CXX.get(c.name, cxx):
                    continue
                stds = u.stds + u.thorough_stds if tier == "thorough" else (("c++20",) if cxx == "clang++" else ("c++17",))
                for s in stds:
                    its = [i for i in u.items if i.kind in ("ok", "bad") and not c.omit.match(i.name) and (tier == "thorough" or not u.quick or u.quick(i))]
                    for k, part in enumerate(tl.split(u, its)):
                        jobs.append((c, u, cxx, s, part, k))

    def one(j):
        c, u, cxx, s, its, k = j
        ev = []
        n = tl.run_unit(work, u, cxx, s, its, lambda *a: ev.append(("v",) + a), lambda it, kd: ev.append(("o", kd)), tag="_%s_%d" % (re.sub(r"\W", "_", c.name), k), flags=c.flags)
        return c, u, n, ev
    for c, u, n, ev in core.pmap(one, jobs):
        rep.units += n
        for e in ev:
            if e[0] == "o":
                rep.ob(e[1])
            else:
                _, it, key, msg, det = e
                rep.violation("[%s] %s/%s: %s" % (c.name, u.name, it.name if it else "<declarations>", key), "[%s] " % c.name + msg + ("\n  in: " + it.body[:600] if it else ""), det)
    rep.rules.append("every witness program is accepted or rejected alike in every documented configuration")


def run_programs(rep, work, tier):
    jobs = []
    for mode, mf in units_conf.MODES:
        if tier == "quick" and mode not in units_conf.QUICK_MODES:
            continue
        for name, src, fl in units_conf.programs():
            if "both" in fl:
                if mode not in ("default", "no PFR"):
                    continue
                fl = ()
            elif tier == "quick" and "PFR" not in mode and mode != "builtin traits off" and not name.startswith(("alone", "all_")):
                continue
            if mode == "PFR required" and tier == "quick" and not name.startswith(("alone", "all_")):
                continue
            if "OFF" in mode.upper() and "builtin" in mode:
                src = re.sub(r"static_assert\(sizeof\(opt::option<(?!C>)[^;]*;", "", src)
            for cxx in ("g++", "clang++"):
                stds = ("c++17", "c++20", "c++23") if tier == "thorough" else (("c++17",) if cxx == "g++" else ("c++20",))
                for s in stds:
                    jobs.append((mode, mf, name, src, fl, cxx, s))

    def one(j):
        mode, mf, name, src, fl, cxx, s = j
        n = "prog_%s_%s_%s_%s" % (name, re.sub(r"\W", "_", mode), cxx.replace("+", "p"), s.replace("+", "p"))
        warn = () if "-Werror" in fl else ("-w",)
        return j, tl.compile_(work, n, src, cxx, s, (), tuple(mf) + tuple(fl) + warn)
    for (mode, mf, name, src, fl, cxx, s), (rc, diag) in core.pmap(one, jobs):
        rep.units += 1
        rep.ob("program accepted")
        if rc:
            m = re.search(r"error: (.*)", diag)
            if not m:
                raise core.Broken("%s failed without a diagnostic: %s" % (cxx, diag[-1500:]))
            rep.violation("[%s] program %s is rejected" % (mode, name), "[%s, %s -std=%s %s] program %s is rejected: %s" % (mode, cxx, s, " ".join(tuple(mf) + tuple(fl)), name, m.group(1)[:300]), src[:1500] + "\n\n" + diag[:4000])
    rep.rules.append("every program is accepted whatever the order of the headers, the translation mode and the configuration macros")
