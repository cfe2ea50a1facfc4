"""P24: the correction matrices, exhaustively for small integer entries and for random ones."""
import random
from lib import *


def inverses(work, rep, pid, tier, seed):
    n = 20000 if tier == "thorough" else 1500
    for variant in ("gc", "dim3gc"):
        exe = work.path("gcinv-" + variant)
        ok, err = compile_cpp(work, os.path.join(VERIF, "harness", "gcinv.cpp"), exe, ["-O1", "-I" + variant_sources(work, variant)] + VARIANTS[variant][1])
        if not ok:
            rep.skip(NoBuild(variant, err))
            continue
        out = work.path("traces", "gc-%s.ndjson" % variant)
        rc, o, e = sh([exe, out, str(seed), str(n)], 120, {"OMP_NUM_THREADS": "2"})
        if rc != 0:
            rep.violation("inverting matrices: the program ends with %s" % rc, {"stderr.txt": e})
            return
        r = tlc(work, "GcTrace", "SPECIFICATION Spec\nINVARIANTS Right Sound\nALIAS Show\nCHECK_DEADLOCK FALSE\n", {"TRACE": out}, heap="8g")
        rep.add(states=r.distinct, transitions=r.generated, traces_validated_against_impl=1, matrices=r.distinct)
        rep.sample("%s: all %s matrices with entries in %s and %d random ones" % (variant, "2x2" if variant == "gc" else "3x3", "-3..3" if variant == "gc" else "-1..1", n))
        if r.ok:
            continue
        if "Right" not in r.violated:
            raise CheckError("GcTrace: " + r.out[-2000:])
        m = re.search(r"/\\ m = (.*?)\n/\\ inv = (.*?)\n\n", r.out + "\n\n", re.S)
        rep.violation("%s: not the inverse (or not the fallback): %s" % (variant, re.sub(r"\s+", " ", r.out[r.out.find("/\\ line"):][:600])), {"tlc.txt": r.out[-6000:]})
        return
