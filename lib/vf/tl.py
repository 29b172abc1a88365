"""Type-level witnesses: facts about the interface decided by the compilers' type checkers, nothing is run.

Item text:
    @ name | groups | kind | flags
    body ...
kinds
    ok     CHECK(c) inside the body is a static assertion; the body has to compile
    bad    BAD(good, bad): with `good` the body has to compile, with `bad` it has to be rejected
           (or IFGOOD(...) IFBAD(...), whose arguments may contain commas)
    warn   BAD(good, bad): with `bad` the compiler has to give the warning named by the flag W..., with `good` it must not
flags: fn (the body is the body of a function), std=c++20 (only in these modes), cxx=clang++ (only with this compiler), clean (no warning at all)"""
import re
from . import core
from .core import Broken

ERR = re.compile(r"(?:^|\s)(?:fatal )?error: ")


class Item:
    def __init__(self, name, groups, kind, body, flags):
        self.name, self.groups, self.kind, self.body, self.flags = name, groups, kind or "ok", body, flags
        self.conds = []

    def in_config(self, cxx, std):
        ss = [f[4:] for f in self.flags if f.startswith("std=")]
        cs = [f[4:] for f in self.flags if f.startswith("cxx=")]
        return (not ss or std in ss) and (not cs or cxx in cs)


def number(body, conds, base):
    out, i = "", 0
    while True:
        m = re.compile(r"\bCHECK\(").search(body, i)
        if not m:
            return out + body[i:]
        d, j = 1, m.end()
        while d:
            c = body[j]
            d += (c == "(") - (c == ")")
            j += 1
        conds.append(body[m.end():j - 1])
        out += body[i:m.start()] + 'static_assert((%s), "VF%d")' % (body[m.end():j - 1], base + len(conds) - 1)
        i = j


def parse(text):
    L = []
    for blk in re.split(r"^@", text, flags=re.M)[1:]:
        head, _, body = blk.partition("\n")
        f = [x.strip() for x in head.split("|")]
        while len(f) < 4:
            f.append("")
        body = " ".join(re.sub(r"//.*", "", l).strip() for l in body.split("\n")).strip()
        L.append(Item(f[0], f[1].split(), f[2], body, set(f[3].split())))
    return L


class TUnit:
    def __init__(self, name, prelude, text, stds=("c++17", "c++20"), cxx=("g++", "clang++"), defs=(), thorough_stds=("c++23",), flags=(), chunk=0, quick=None):
        self.chunk, self.quick = chunk, quick  # items per job; predicate selecting the items of the quick tier
        self.name, self.prelude, self.stds, self.cxx, self.defs = name, prelude, stds, cxx, defs
        self.thorough_stds, self.flags = thorough_stds, flags
        self.items = parse(text)
        names = [i.name for i in self.items]
        assert len(names) == len(set(names)), [n for n in names if names.count(n) > 1]
        self.pre_conds = []
        self.prelude = number(prelude, self.pre_conds, 0)
        n = len(self.pre_conds)
        self.conds = [(None, c) for c in self.pre_conds]
        for it in self.items:
            it.first = n
            it.src = number(it.body, it.conds, n)
            self.conds += [(it, c) for c in it.conds]
            n += len(it.conds)


def compile_(work, name, src, cxx, std, defs=(), flags=()):
    p = work.path(name + ".cpp")
    with open(p, "w") as f:
        f.write(src)
    lim = ["-fmax-errors=0", "-fdiagnostics-color=never"] if cxx == "g++" else ["-ferror-limit=0", "-fno-caret-diagnostics", "-ftemplate-backtrace-limit=0"]
    r = core.sh([cxx, "-std=" + std, "-fsyntax-only", "-I", core.INC, "-I", core.VERIF + "/harness"] + lim + ["-D" + d for d in defs] + list(flags) + [p])
    return r.returncode, r.stderr


def wrap(it):
    if "fn" in it.flags:
        return '#line 1 "ITEM_%s"\nnamespace w_%s { void f() { %s } }\n' % (it.name, it.name, it.src)
    return '#line 1 "ITEM_%s"\nnamespace w_%s { %s }\n' % (it.name, it.name, it.src)


def blocks(diag, cxx, what=ERR):
    """-> [(item name or None, line, whole block)]"""
    L = diag.split("\n")
    idx = [i for i, l in enumerate(L) if what.search(l)]
    out = []
    for n, i in enumerate(idx):
        if cxx == "g++":
            lo, hi = (idx[n - 1] + 1 if n else 0), i + 1
        else:
            lo, hi = i, (idx[n + 1] if n + 1 < len(idx) else len(L))
        own = re.findall(r"ITEM_(\w+)", L[i])
        hit = own[0] if own else None
        if hit is None:
            for l in L[lo:hi]:
                m = re.search(r"ITEM_(\w+)", l)
                if m:
                    hit = m.group(1)
        out.append((hit, L[i], "\n".join(L[lo:hi])))
    return out


GOOD = "#define BAD(g, ...) g\n#define IFGOOD(...) __VA_ARGS__\n#define IFBAD(...)\n"
WRONG = "#define BAD(g, ...) __VA_ARGS__\n#define IFGOOD(...)\n#define IFBAD(...) __VA_ARGS__\n"


def run_unit(work, unit, cxx, std, items, emit, ob, tag="", defs=(), flags=()):
    """emit(item or None, key, message, detail)"""
    d = list(unit.defs) + list(defs)
    fl = list(unit.flags) + list(flags)
    items = [i for i in items if i.in_config(cxx, std)]
    if not items:
        return 0
    base = "%s_%s_%s%s" % (unit.name, cxx.replace("+", "p"), std.replace("+", "p"), tag)
    by = {i.name: i for i in items}
    where = "%s, -std=%s%s" % (cxx, std, (", " + " ".join("-D" + x for x in d) if d else ""))
    wflags = sorted({f for i in items for f in i.flags if f.startswith("W")})
    n = 0
    # everything that has to compile
    wf = ["-" + f for f in wflags] if cxx == "clang++" or wflags in ([], ["Wunused-result"]) else []
    quiet = [] if wf else ["-w"]
    rc, diag = compile_(work, base, GOOD + unit.prelude + "\n" + "".join(wrap(i) for i in items), cxx, std, d, fl + wf + quiet)
    n += 1
    seen = False
    for hit, line, blk in blocks(diag, cxx):
        seen = True
        m = re.search(r"static assertion failed.*VF(\d+)", line)
        if m:
            it, c = unit.conds[int(m.group(1))]
            if it is None:  # an assertion in the shared prelude, attribute it to the item that used it
                it = by.get(hit)
            emit(it, "does not hold: %s" % c, "[%s] does not hold: %s" % (where, c), blk)
        else:
            msg = re.sub(r".*?error: ", "", line)
            emit(by.get(hit), "does not compile: %s" % msg[:160], "[%s] %s: does not compile: %s" % (where, hit, msg), blk[:6000])
    if rc and not seen:
        raise Broken("%s failed without a diagnostic: %s" % (cxx, diag[-2000:]))
    for it in items:
        for c in it.conds:
            ob(it, "static assertion")
        if not it.conds:
            ob(it, "well-formed")
    warn = re.compile(r"warning: .*\[-W([\w+-]+)\]?")
    for hit, line, blk in blocks(diag, cxx, warn):
        it = by.get(hit)
        if it and it.kind == "warn":
            w = warn.search(line).group(1)
            if any(w.startswith(f[1:]) for f in it.flags if f.startswith("W")):
                emit(it, "warns about correct code", "[%s] %s: correct code is diagnosed: %s" % (where, hit, line), blk)
    # everything that has to be diagnosed
    ws = [i for i in items if i.kind == "warn"]
    if ws and wf:
        rc, diag = compile_(work, base + "_w", WRONG + unit.prelude + "\n" + "".join(wrap(i) for i in ws), cxx, std, d, fl + wf)
        n += 1
        got = {}
        for hit, line, blk in blocks(diag, cxx, warn):
            got.setdefault(hit, set()).add(warn.search(line).group(1))
        errs = {hit for hit, _, _ in blocks(diag, cxx)}
        for it in ws:
            ob(it, "diagnosed")
            if it.name in errs:
                emit(it, "does not compile", "[%s] %s: misuse is an error, expected a warning" % (where, it.name), diag[:3000])
            elif not any(w.startswith(f[1:]) for w in got.get(it.name, ()) for f in it.flags if f.startswith("W")):
                emit(it, "not diagnosed", "[%s] %s is accepted without the warning %s" % (where, it.name, [f for f in it.flags if f.startswith("W")]), it.body)
    # everything that has to be rejected: together first, those that no diagnostic mentions (possibly because of a shared instantiation) alone
    bads = [i for i in items if i.kind == "bad"]
    named = set()
    if len(bads) > 1:
        rc, diag = compile_(work, base + "_b", WRONG + unit.prelude + "\n" + "".join(wrap(i) for i in bads), cxx, std, d, fl + ["-w"])
        n += 1
        named = {hit for hit, _, _ in blocks(diag, cxx)} if rc else set()
    for it in bads:
        ob(it, "rejected")
        if it.name in named:
            continue
        rc, diag = compile_(work, base + "_b_" + it.name, WRONG + unit.prelude + "\n" + wrap(it), cxx, std, d, fl + ["-w"])
        n += 1
        if rc == 0:
            emit(it, "accepted", "[%s] %s: ill-formed use is accepted" % (where, it.name), it.body)
        elif not ERR.search(diag):
            raise Broken("%s failed without a diagnostic: %s" % (cxx, diag[-2000:]))
    return n


def split(u, items):
    """jobs of bounded size"""
    bad = [i for i in items if i.kind == "bad"]
    rest = [i for i in items if i.kind != "bad"]
    c = u.chunk or max(1, len(rest))
    out = [rest[k:k + c] for k in range(0, len(rest), c)]
    out += [bad[k:k + 40] for k in range(0, len(bad), 40)]
    return out


def make_part(units):
    def run(rep, work, tier):
        jobs = []
        for u in units:
            its = [i for i in u.items if rep.prop in i.groups and (tier == "thorough" or not u.quick or u.quick(i))]
            if not its:
                continue
            for cxx in u.cxx:
                for std in u.stds + (u.thorough_stds if tier == "thorough" else ()):
                    for k, part in enumerate(split(u, its)):
                        jobs.append((u, cxx, std, part, k))
        if not jobs:
            return

        def one(j):
            u, cxx, std, its, k = j
            ev = []
            n = run_unit(work, u, cxx, std, its, lambda *a: ev.append(("v",) + a), lambda it, kd: ev.append(("o", kd)), tag="_%d" % k)
            return u, n, ev, its
        for u, n, ev, its in core.pmap(one, jobs):
            rep.units += n
            for e in ev:
                if e[0] == "o":
                    rep.ob(e[1])
                else:
                    _, it, key, msg, det = e
                    rep.violation("%s/%s: %s" % (u.name, it.name if it else "<declarations>", key), msg + ("\n  in: " + it.body[:600] if it else ""), det)
            for it in its[:2]:
                rep.sample("%s: %s" % (it.name, it.body[:160]))
        r = "every witness program is accepted, rejected or diagnosed by the compilers as stated"
        if r not in rep.rules:
            rep.rules.append(r)
    return run
