"""P14: parallel regions - footprints of every iteration, other schedules, other numbers of threads."""
import os
import scen
import trace
from lib import *

WRAPS = ",".join("--wrap=" + f for f in ("memcpy memmove memset pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock "
                                         "__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort").split())


def build(work, variant):
    """the step driver with the simulated OpenMP runtime, or None"""
    out = work.path("par-" + variant)
    if os.path.exists(out):
        return out
    h = os.path.join(VERIF, "harness")
    flags = ["-O1", "-g1", "-I" + variant_sources(work, variant)]
    ok, err = compile_cpp(work, os.path.join(h, "step.cpp"), out + ".o", flags + ["-fopenmp", "-fsanitize=thread", "-DPARSIM", "-DNO_HOOKS", "-c"])
    if not ok:
        raise NoBuild(variant, err)
    ok, err = compile_cpp(work, os.path.join(h, "parsim.cpp"), out + ".sim.o", ["-O1", "-c"])
    if not ok:
        raise CheckError("parsim.cpp does not compile: " + err[-3000:])
    rc, o, e = sh(["g++", "-o", out, out + ".o", out + ".sim.o", "-lpthread", "-Wl," + WRAPS])
    if rc != 0:
        return None
    return out


def attempt(work, rep, variant):
    try:
        return build(work, variant)
    except NoBuild as e:
        if variant == "default":
            raise
        rep.skip(e)
        return ""


MC = "SPECIFICATION Spec\nCONSTANTS\n Iters = %d\n Locs = %d\n Ops = %d\n Checked = %s\nINVARIANT Deterministic\nCHECK_DEADLOCK FALSE\n"


def model(work, rep, pid, tier, seed):
    """race-free loops are deterministic, others are not"""
    for bounds in ([(3, 2, 2)] if tier != "thorough" else [(3, 2, 2), (2, 3, 3), (3, 3, 2)]):
        r = tlc(work, "ParFor", MC % (bounds + ("TRUE",)))
        rep.add(states=r.distinct, transitions=r.generated)
        rep.sample("all race-free loops of %d iterations with up to %d accesses to %d locations, all interleavings: %d states" % (bounds[0], bounds[2], bounds[1], r.distinct))
        if not r.ok:
            raise CheckError("ParFor: " + r.out[-2000:])
    r = tlc(work, "ParFor", MC % (2, 1, 2, "FALSE"))
    if r.violated != ["Deterministic"]:
        raise CheckError("ParFor without the condition: " + r.out[-2000:])


def footprints(quick, thorough, families):
    """quick, thorough: variant -> how many scenarios"""
    def part(work, rep, pid, tier, seed):
        names = list(quick)
        for n in names:
            variant_sources(work, n)
        with cf.ThreadPoolExecutor(CORES) as ex:
            exes = dict(zip(names, ex.map(lambda n: attempt(work, rep, n), names)))
        names = [n for n in names if exes[n] != ""]
        jobs, scenarios = [], {}
        for n in names:
            if exes[n] is None:
                rep.notes.append("%s: uses OpenMP calls the simulated runtime does not have; judged with the real one only" % n)
                continue
            factor = (thorough if tier == "thorough" else quick)[n]
            scenarios[n] = scen.make("%s/par/%s/%s" % (pid, n, seed), {f: max(1, int(round(k * factor))) for f, k in families.items()}, VARIANTS[n][2], False)
            for i, s in enumerate(scenarios[n]):
                jobs.append((len(s.text()), n, i, s))
        # the big ones first
        with cf.ThreadPoolExecutor(CORES) as ex:
            list(ex.map(lambda a: run_driver(work, exes[a[1]], [a[3].text()], work.path("traces", "par-%s.%d" % (a[1], a[2]))), sorted(jobs, key=lambda a: -a[0])))
        for n in scenarios:
            out = work.path("traces", "par-%s.ndjson" % n)
            with open(out, "w") as f, open(out + ".regions", "w") as g:   # one after the other, renumbered
                for i in range(len(scenarios[n])):
                    one = work.path("traces", "par-%s.%d" % (n, i))
                    for src, dst in ((one, f), (one + ".regions", g)):
                        for line in open(src) if os.path.exists(src) else ():
                            if line.endswith("}\n"):
                                dst.write(re.sub(r'"k":\s*\d+', '"k":%d' % (i + 1), line, count=1))
                        if os.path.exists(src):
                            os.remove(src)

        def verdict(n):
            out = work.path("traces", "par-%s.ndjson" % n)
            if races(work, rep, n, scenarios[n], exes[n], out + ".regions"):
                trace.judge(work, rep, pid, n, scenarios[n], out, False, "MpsTrace", trace.cfg_for(pid), n + "/simulated schedules")
        with cf.ThreadPoolExecutor(3) as ex:
            list(ex.map(verdict, scenarios))
    return part


def races(work, rep, name, S, exe, path):
    lines = open(path).read().split("\n")
    if len(lines) < 2:
        rep.notes.append("%s: no parallel regions were executed" % name)
        return True
    r = tlc(work, "ParTrace", "INIT Init\nNEXT Next\nINVARIANT NoRace\nALIAS Show\nCHECK_DEADLOCK FALSE\n", {"TRACE": path})
    rep.add(states=r.distinct, transitions=r.generated, regions_checked=len(lines) - 1)
    if r.ok:
        return True
    if r.violated != ["NoRace"]:
        raise CheckError("ParTrace: " + r.out[-3000:])
    k = int(r.field("scenario"))
    rc, where, e = sh(["addr2line", "-Cfpie", exe, hex(int(r.field("site").strip('"')) - 1)])
    where = re.sub(r"\[clone[^\]]*\]|<.*?>", "", where.split("\n")[0])[:300]
    msg = "%s, scenario %s: in the parallel region started at %s, memory written by one iteration is used by another: (readers, writers, bytes) %s" % (
        name, S[k - 1].name if k <= len(S) else "?", where, r.field("shared")[:600])
    rep.violation(msg, {"region.ndjson": lines[int(r.field("line")) - 1], "scenario.txt": S[k - 1].text() if k <= len(S) else "", "tlc.txt": r.out[-8000:],
                        "how.txt": "harness/step.cpp with harness/parsim.cpp (see tools/par.py) on scenario.txt writes region.ndjson among OUT.regions;\nspec/ParTrace.tla rejects it.\n"})
    return False
