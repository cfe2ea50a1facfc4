#!/usr/bin/env python3
"""check.py PROPERTY : decides one property on the current tree of the repository."""
import sys
import traceback
sys.path.insert(0, __file__.rsplit("/", 1)[0])
from lib import *
import props


def main():
    pid = sys.argv[1]
    if pid not in props.CHECKS:
        print("unknown property", pid)
        return 2
    work = Work(pid)
    rep = Report(pid)
    out = os.path.join(VERIF, "out", pid)
    shutil.rmtree(out, ignore_errors=True)
    try:
        level = props.LEVEL.get(pid, "model_checking")
        for part in props.CHECKS[pid]:
            try:
                part(work, rep, pid, TIER, SEED)
            except NoBuild as e:
                if e.variant == "default":
                    raise
                rep.skip(e)
            if rep.violations:
                break
        if rep.skipped and not rep.violations and not rep.cov.get("traces_validated_against_impl"):
            raise CheckError("nothing compiles, nothing was judged")
    except CheckError as e:
        print("ERROR in the check of %s: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        work.close()
    for line in known(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, line))
    cov = dict(rep.cov)
    for k in ("states", "transitions", "traces_validated_against_impl"):
        cov.setdefault(k, 0)
    cov["samples"] = rep.samples or ["none"]
    if rep.notes:
        cov["notes"] = rep.notes[:10]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(dict(property=pid, tier="thorough" if TIER == "thorough" else "quick", seed=SEED, level=level, coverage=cov,
                       assumptions=props.ASSUMPTIONS.get(pid, props.COMMON), wall_s=round(time.time() - rep.t0, 1),
                       violations=len(rep.violations)), f, indent=1, ensure_ascii=False)
    for n in rep.notes:
        print("note:", n)
    print("%s: %s in %.0f s" % (pid, ", ".join("%s=%s" % kv for kv in rep.cov.items()), time.time() - rep.t0))
    if not rep.violations:
        return 0
    for n, (msg, files) in enumerate(rep.violations):
        d = os.path.join(out, "replay%d" % n)
        os.makedirs(d, exist_ok=True)
        for name, text in files.items():
            with open(os.path.join(d, name), "w") as f:
                f.write(text)
        print(msg[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, d))
    return 1


def known(pid):
    r = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\w+) (.*)", line)
            if m and m.group(1) == pid:
                r.append(m.group(2).strip())
    return r


sys.exit(main())
