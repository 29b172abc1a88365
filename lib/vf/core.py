"""Shared machinery: building the analyser, lowering probe units of /repo to IR, running the
analysis, collecting obligations, and reporting."""
import concurrent.futures as cf
import hashlib, json, os, subprocess, sys, tempfile, time, shutil, re

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = os.path.join(REPO, "include")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
ENGINE_SRC = os.path.join(VERIF, "engine", "irflow.cpp")
JOBS = 8


class Broken(Exception):
    """The analysis itself could not be carried out (neither holds nor violated)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def engine():
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256(open(ENGINE_SRC, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "irflow-" + h)
    if os.path.exists(exe):
        return exe
    cxx = sh(["llvm-config", "--cxxflags"]).stdout.replace("-DNDEBUG", "").split()
    ld = sh(["llvm-config", "--ldflags", "--libs", "core", "irreader", "support", "demangle", "--link-shared"]).stdout.split()
    tmp = exe + ".%d.tmp" % os.getpid()
    r = sh(["clang++", "-std=c++17", "-O2", "-w"] + cxx + ["-fno-rtti", ENGINE_SRC, "-o", tmp] + ld)
    if r.returncode:
        raise Broken("engine does not build:\n" + r.stderr[-3000:])
    os.replace(tmp, exe)
    return exe


class Work:
    """scratch directory of one check run"""

    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="work-", dir=BUILD)

    def path(self, n):
        return os.path.join(self.dir, n)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def lower(work, name, src, std="c++17", defs=(), flags=()):
    """compile a probe unit to -O0 IR; returns (path or None, diagnostics)"""
    cpp = work.path(name + ".cpp")
    bc = work.path(name + ".bc")
    with open(cpp, "w") as f:
        f.write(src)
    cmd = ["clang++", "-std=" + std, "-O0", "-g", "-w", "-Xclang", "-disable-O0-optnone", "-emit-llvm", "-c", "-ferror-limit=40",
           "-I", INC, "-I", os.path.join(VERIF, "harness")] + ["-D" + d for d in defs] + list(flags) + [cpp, "-o", bc]
    r = sh(cmd)
    if r.returncode:
        return None, r.stderr
    return bc, r.stderr


def analyse(work, name, bc, config):
    cj = work.path(name + ".json")
    with open(cj, "w") as f:
        json.dump(config, f)
    r = sh([engine(), bc, cj])
    if r.returncode:
        raise Broken("analysis of %s failed: %s" % (name, r.stderr[-2000:]))
    return json.loads(r.stdout)


def pmap(fn, items, jobs=JOBS):
    with cf.ThreadPoolExecutor(max_workers=jobs) as ex:
        return list(ex.map(fn, items))


# ------------------------------------------------------------------ reporting
def known_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)", l)
                if m:
                    out.append((m.group(1), m.group(2), m.group(3)))
    return out


class Report:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.obligations = 0
        self.viol = {}      # key -> (message, detail)
        self.samples = []
        self.functions = set()
        self.units = 0
        self.paths = 0
        self.kinds = {}
        self.rules = []
        self.minimums = {}
        self.assumptions = []
        self.explain = ""

    def ob(self, kind, n=1):
        self.obligations += n
        self.kinds[kind] = self.kinds.get(kind, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def violation(self, key, msg, detail=""):
        if key not in self.viol:
            self.viol[key] = (msg, detail)

    def require(self, kind, n):
        self.minimums[kind] = n

    def finish(self, level="proof", checker_cmd=None, trusted=None):
        os.makedirs(EVID, exist_ok=True)
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        short = {k: (v, self.kinds.get(k, 0)) for k, v in self.minimums.items() if self.kinds.get(k, 0) < v}
        known = [(k, d) for (p, k, d) in known_findings() if p == self.prop]
        new, old = [], []
        for key, (msg, det) in sorted(self.viol.items()):
            hit = [d for (k, d) in known if k == key]
            (old if hit else new).append((key, msg, det))
        for key, msg, det in old:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, msg))
        for i, (key, msg, det) in enumerate(new):
            path = os.path.join(rdir, "%s-%d.txt" % (self.prop, i))
            with open(path, "w") as f:
                f.write("property: %s\nkey: %s\n%s\n\n%s\n" % (self.prop, key, msg, det))
            if i < 25:
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  " + msg.replace("\n", "\n  "))
        if len(new) > 25:
            print("  ... %d more violations" % (len(new) - 25))
        cov = {"obligations": self.obligations, "discharged": self.obligations - len(self.viol) if self.obligations > len(self.viol) else 0,
               "checker_cmd": checker_cmd or "python3 check.py %s --tier %s" % (self.prop, self.tier),
               "trusted_base": trusted or ["clang 18 front end (IR is a faithful image of the source)", "engine/irflow.cpp transfer functions", "the specification tables in lib/vf"],
               "obligations_by_kind": self.kinds, "translation_units": self.units, "abstract_paths": self.paths,
               "library_functions_analysed": len(self.functions), "rule": "; ".join(self.rules), "samples": self.samples,
               "explanation": self.explain}
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d obligations over %d units, %d abstract paths, %d functions, %d violation(s), %.1fs" % (
            self.prop, self.obligations, self.units, self.paths, len(self.functions), len(new), time.time() - self.t0))
        if new:
            return 1
        if short:
            print("analysis coverage fell below its minimum: %s" % short, file=sys.stderr)
            return 4
        return 0
