"""Shared machinery of the checks: building drivers, running TLC, reporting."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src", "OpenMps")
TLA = "/opt/veriftools/tla"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough") else os.environ.get("VERIF_TIER", "quick")
CORES = max(2, min(8, os.cpu_count() or 2))


class CheckError(Exception):
    """The check itself could not be carried out."""


class NoBuild(CheckError):
    """A driver does not compile with a combination of options."""

    def __init__(self, variant, text):
        CheckError.__init__(self, "%s: does not compile: %s" % (variant, text[-3000:]))
        self.variant = variant


class Work:
    """scratch directory of one check, removed at the end"""

    def __init__(self, pid):
        self.dir = tempfile.mkdtemp(prefix="openmps-%s-" % pid)

    def path(self, *a):
        p = os.path.join(self.dir, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


PASSIVE = {"OMP_WAIT_POLICY": "passive", "GOMP_SPINCOUNT": "0"}   # threads that wait do not use up the processors


def cpu_seconds(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


def sh(cmd, timeout=300, env=None, cwd=None, stdin=None):
    """Run a command.  The time it may take is meant for a machine that has nothing else to do: a process that did not get
    the processor for that long may go on, up to four times as long."""
    e = dict(os.environ, **PASSIVE)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, stdin=subprocess.DEVNULL)
    t0 = time.time()
    left, used = timeout, 0.0
    while True:
        try:
            o, err = p.communicate(timeout=max(left, 0.1))
            return p.returncode, o.decode("utf-8", "replace"), err.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            used, before = cpu_seconds(p.pid), used
            left = min(timeout - used, 4 * timeout - (time.time() - t0))
            if left > 0 and used - before > 0.01:
                left = min(max(left, 1), 10)
                continue
            p.kill()
            o, err = p.communicate()
            return "timeout", o.decode("utf-8", "replace"), err.decode("utf-8", "replace")


# ---------------------------------------------------------------------------------------------------
# TLC

def java_classes(work):
    """compile the Java overrides of the TLA+ modules"""
    d = work.path("cls", "x")
    d = os.path.dirname(d)
    if not getattr(work, "java", None):
        srcs = [os.path.join(VERIF, "spec", f) for f in sorted(os.listdir(os.path.join(VERIF, "spec"))) if f.endswith(".java")]
        rc, o, e = sh(["javac", "-cp", TLA + "/tla2tools.jar", "-d", d] + srcs, 300)
        if rc != 0:
            raise CheckError("javac: " + e[-2000:])
        work.java = d
    return work.java


class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.done = [tuple(json.loads("[" + t + "]")) for t in re.findall(r'<<"DONE", ([^>]*)>>', out)]
        self.ok = "Model checking completed. No error has been found." in out
        self.violated = re.findall(r"Error: Invariant (\w+) is violated", out)
        if not self.violated:
            self.violated = re.findall(r"Error: The invariant of (\w+) is (?:violated|equal to FALSE)", out)
        self.assertion = re.findall(r"Error: Action property (\w+) is violated|Error: Temporal properties were violated|Assumption line", out)
        self.deadlock = "Error: Deadlock reached." in out
        states = re.split(r"\nState \d+: ", out)
        self.last = states[-1].split("\n\n")[0] if len(states) > 1 else ""

    def field(self, name):
        m = re.search(r"/\\ %s = (.*?)(?=\n/\\ |\Z)" % name, self.last, re.S)
        return re.sub(r"\s+", " ", m.group(1)).strip() if m else ""


def tlc(work, module, cfg, env=None, workers=CORES, timeout=800, heap="6g", extra=(), module_consts=()):
    """run TLC on spec/<module>.tla with the configuration text cfg; module_consts: definitions that cfg refers to"""
    cls = java_classes(work)
    meta = tempfile.mkdtemp(prefix="meta", dir=work.dir)
    c = os.path.join(meta, "M.cfg")
    with open(c, "w") as f:
        f.write(cfg)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-cp", ":".join([cls, TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"]),
           "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", c] + list(extra) + [module + ".tla"]
    cwd = os.path.join(VERIF, "spec")
    if module_consts:
        # a module next to copies of the specification
        for f in os.listdir(cwd):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(cwd, f), meta)
        with open(os.path.join(meta, "MC.tla"), "w") as f:
            f.write("---- MODULE MC ----\nEXTENDS %s\n%s\n====\n" % (module, "\n".join(module_consts)))
        cmd[-1] = "MC.tla"
        cwd = meta
    rc, o, e = sh(cmd, timeout, env, cwd=cwd)
    shutil.rmtree(meta, ignore_errors=True)
    if rc == "timeout":
        raise CheckError("TLC did not finish in %d s on %s" % (timeout, module))
    return TlcResult(rc, o + e)


# ---------------------------------------------------------------------------------------------------
# Building drivers from the current tree of the repository

ALL_OFF = ["-MPS_HS", "-MPS_HL", "-MPS_ECS", "-MPS_DS", "-MPS_SPP"]
STD = dict(spp=False, hs=False, hl=False, ecs=False, ds=False)
# name: (changes to defines.hpp, compiler options beyond the usual, options of the specification)
VARIANTS = {
    "default": ([], ["-fopenmp"], {}),
    "serial": ([], [], {}),
    "gc": (["+MPS_GC"], ["-fopenmp"], dict(gc=True)),
    "nospp": (["-MPS_SPP"], ["-fopenmp"], dict(spp=False)),
    "std": (ALL_OFF, ["-fopenmp"], STD),
    "expl": (["+PRESSURE_EXPLICIT"], ["-fopenmp"], dict(expl=True)),
    "explstd": (["+PRESSURE_EXPLICIT"] + ALL_OFF, ["-fopenmp"], dict(STD, expl=True)),
    "noviennacl": (["-USE_VIENNACL"], ["-fopenmp"], {}),
    "noviennaclserial": (["-USE_VIENNACL"], [], {}),
    "nohs": (["-MPS_HS"], ["-fopenmp"], dict(hs=False)),
    "nods": (["-MPS_DS"], ["-fopenmp"], dict(ds=False)),
    "noecs": (["-MPS_ECS"], ["-fopenmp"], dict(ecs=False)),
    "nohl": (["-MPS_HL"], ["-fopenmp"], dict(hl=False)),
    "dim3": (["+DIM3"], ["-fopenmp"], dict(dim=3)),
    "dim3gc": (["+DIM3", "+MPS_GC"], ["-fopenmp"], dict(dim=3, gc=True)),
    "gcstd": (["+MPS_GC"] + ALL_OFF, ["-fopenmp"], dict(STD, gc=True)),
    "dim3std": (["+DIM3"] + ALL_OFF, ["-fopenmp"], dict(STD, dim=3)),
    "dim3nospp": (["+DIM3", "-MPS_SPP", "-USE_VIENNACL"], ["-fopenmp"], dict(dim=3, spp=False)),
    "dim3expl": (["+DIM3", "+PRESSURE_EXPLICIT", "-MPS_DS"], [], dict(dim=3, expl=True, ds=False)),
    "dim3mixed": (["+DIM3", "-MPS_HL", "-MPS_ECS", "-USE_VIENNACL"], [], dict(dim=3, hl=False, ecs=False)),
    "gcexpl": (["+MPS_GC", "+PRESSURE_EXPLICIT", "-MPS_HL", "-MPS_ECS"], ["-fopenmp"], dict(gc=True, expl=True, hl=False, ecs=False)),
    "gcnospp": (["+MPS_GC", "-MPS_SPP", "-MPS_DS"], [], dict(gc=True, spp=False, ds=False)),
    "sppstd": (["-MPS_HS", "-MPS_HL", "-MPS_ECS", "-MPS_DS"], ["-fopenmp"], dict(STD, spp=True)),
    "hsonly": (["-MPS_HL", "-MPS_ECS", "-MPS_DS", "-MPS_SPP", "-USE_VIENNACL"], ["-fopenmp"], dict(STD, hs=True)),
    "central": (["+CENTRAL_GRAVITY"], ["-fopenmp"], dict(central=True)),
}


def variant_sources(work, name):
    """the directory with the headers of a variant; the default one is the tree itself"""
    toggles = VARIANTS[name][0]
    if not toggles:
        return SRC
    d = os.path.join(work.dir, "src-" + name)
    if os.path.isdir(d):
        return d
    shutil.copytree(SRC, d)
    f = os.path.join(d, "defines.hpp")
    text = open(f, encoding="utf-8-sig", newline="").read()
    for t in toggles:
        o = t[1:]
        if t[0] == "+":
            text, k = re.subn(r"(?m)^[ \t]*//[ \t]*#[ \t]*define[ \t]+%s[ \t]*(?=\r?$|//|/\*)" % o, "#define " + o, text)
            if k == 0 and not re.search(r"(?m)^[ \t]*#[ \t]*define[ \t]+%s\b" % o, text):
                text = "#define %s\n" % o + text
        else:
            text = re.sub(r"(?m)^[ \t]*#[ \t]*define[ \t]+%s\b.*$" % o, "", text)
    open(f, "w", encoding="utf-8", newline="").write(text)
    return d


def compile_cpp(work, source, out, flags, timeout=600, cxx="g++"):
    cmd = [cxx, "-std=c++17", "-ffp-contract=off", "-Wno-unknown-pragmas", "-I" + os.path.join(VERIF, "harness")] + flags + [source, "-o", out]
    rc, o, e = sh(cmd, timeout)
    return rc == 0, e


def build_step(work, variant, hooks=True, opt="-O1"):
    """the step driver for a variant; returns (path, hooks?)"""
    src = variant_sources(work, variant)
    source = os.path.join(VERIF, "harness", "step.cpp")
    out = os.path.join(work.dir, "step-" + variant + ("" if hooks else "-blind"))
    if os.path.exists(out):
        return out, True
    dead = os.path.join(work.dir, "dead-" + variant)
    if os.path.exists(dead):
        raise NoBuild(variant, open(dead).read())
    flags = [opt, "-I" + src] + VARIANTS[variant][1]
    err = ""
    if hooks:
        ok, err = compile_cpp(work, source, out, flags + ["-DOPENMPS_TRACE"])
        if ok:
            return out, True
        out = os.path.join(work.dir, "step-" + variant + "-blind")
        if os.path.exists(out):
            return out, False
    ok, err2 = compile_cpp(work, source, out, flags + ["-DNO_HOOKS"])
    if not ok:
        open(dead, "w").write(err2 or err)
        raise NoBuild(variant, err2 or err)
    return out, False


# ---------------------------------------------------------------------------------------------------
# Running drivers

def run_driver(work, exe, scenarios, out, env=None, timeout=150):
    """Run the scenarios (texts) in one process.  If it dies, run them one by one, and record the death
    as an event of the scenario that causes it."""
    sf = out + ".scn"
    with open(sf, "w") as f:
        f.write("".join(scenarios))
    rc, o, e = sh([exe, sf, out], timeout, env)
    if rc == 0:
        return 0
    if rc == 2:
        raise CheckError("driver: " + e[-500:])
    dead = 0
    with open(out, "w") as f:
        k = 0
        for i, text in enumerate(scenarios):
            one = out + ".one"
            with open(sf, "w") as g:
                g.write(text)
            if os.path.exists(one):
                os.remove(one)
            if dead >= 3:       # enough
                break
            rc, o, e = sh([exe, sf, one], 40, env)
            k += 1
            lines = []
            if os.path.exists(one):
                for line in open(one, errors="replace"):
                    try:
                        v = json.loads(line)
                    except ValueError:
                        break
                    v["k"] = k
                    lines.append(json.dumps(v, separators=(",", ":")) + "\n")
            if rc == 2:
                raise CheckError("driver: " + e[-500:])
            if rc != 0:
                dead += 1
                how = "does not end" if rc == "timeout" else "dies with status %s: %s" % (rc, re.sub(r'[^ -~]', " ", e)[-300:])
                lines.append(json.dumps({"ev": "crash", "k": k, "c": 0, "how": how}) + "\n")
            f.writelines(lines)
    return dead


def buildable(work, rep, pairs):
    """those (variant, hooks) whose step drivers compile; the tree as it stands has to"""
    pairs = list(pairs)
    for n in {p[0] for p in pairs}:
        variant_sources(work, n)

    def can(p):
        try:
            build_step(work, *p)
            return True
        except NoBuild as e:
            if p[0] == "default":
                raise
            rep.skip(e)
            return False
    with cf.ThreadPoolExecutor(CORES) as ex:
        return {p for p, ok in zip(pairs, ex.map(can, pairs)) if ok}


class Report:
    """what a check found and covered"""

    def __init__(self, pid):
        self.pid = pid
        self.violations = []       # (message, files to keep)
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.notes = []
        self.skipped = False
        self.t0 = time.time()

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def skip(self, e):
        """a combination of options that does not compile is not judged"""
        note = re.sub(r"\s+", " ", str(e))[:200]
        if note not in self.notes:
            self.notes.append(note)
            self.skipped = True

    def sample(self, *s):
        for x in s:
            if len(self.samples) < 12 and x not in self.samples:
                self.samples.append(x)

    def violation(self, message, replay):
        """replay: text describing how to see it again, plus {name: content or path}"""
        self.violations.append((message, replay))


def split_scenarios(path):
    """lines of a trace by scenario number"""
    r = {}
    for line in open(path, errors="replace"):
        m = re.search(r'"k":\s*(\d+)', line)
        if m:
            r.setdefault(int(m.group(1)), []).append(line)
    return r
