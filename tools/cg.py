"""P09: the pressure solver on systems of many kinds, against the solver of the specification (Cg.tla)."""
from lib import *

CFG = "SPECIFICATION Spec\nINVARIANTS Terminates Keeps Honest Succeeds Result\nALIAS Show\nCHECK_DEADLOCK FALSE\n"


def solves(work, rep, pid, tier, seed):
    n = 6000 if tier == "thorough" else 900
    for variant in ("default", "noviennacl", "serial", "noviennaclserial")[:4 if tier == "thorough" else 2]:
        exe = work.path("cg-" + variant)
        ok, err = compile_cpp(work, os.path.join(VERIF, "harness", "cg.cpp"), exe, ["-O1", "-I" + variant_sources(work, variant)] + VARIANTS[variant][1])
        if not ok:
            rep.notes.append("the solver cannot be driven by itself (%s): judged from whole steps only: %s" % (variant, err[:300]))
            continue
        out = work.path("traces", "cg-%s.ndjson" % variant)
        rc, o, e = sh([exe, out, str(seed), str(n)], 120, {"OMP_NUM_THREADS": "2"})
        if rc != 0:
            rep.violation("%s: solving: the program ends with %s" % (variant, rc), {"stderr.txt": e})
            return
        r = tlc(work, "CgTrace", CFG, {"TRACE": out}, heap="8g")
        rep.add(states=r.distinct, transitions=r.generated, systems=sum(1 for _ in open(out)))
        rep.sample("%s: all systems of 1 and 2 unknowns with entries in -2..2, of 3 unknowns with diagonal 0 or -2 and entries in -1..1; %d random ones of 11 kinds" % (variant, n))
        if r.ok:
            continue
        if r.violated != ["Result"]:
            raise CheckError("CgTrace: " + r.out[-2000:])
        line = int(r.field("line"))
        rec = open(out).read().split("\n")[line - 1]
        rep.violation("%s: a system of kind %s: the solver says %s; own solver: %s after %s iterations; x = %s" %
                      (variant, r.field("kind"), r.field("how"), r.field("phase"), r.field("iterations"), r.field("x")[:400]),
                      {"system.ndjson": rec, "tlc.txt": r.out[-6000:]})
        return
