"""Trace validation of simulation steps against MpsTrace.tla."""
import os
import threading
import scen
from lib import *

CFG = """SPECIFICATION Spec
CONSTANT Props = {%s}
INVARIANT NoViolation
ALIAS Show
CHECK_DEADLOCK TRUE
"""


def cfg_for(pid):
    return CFG % ('"%s"' % pid)


INSIDE = {"P01"}     # judged by what is recorded inside a step; existing tests rely on the same access to it


def confirmed(work, rep, pid, variant, scenarios, lines, k):
    """A stage that differs from the specification's counts if it makes a difference to what a user of the library can see:
    does any step, of these scenarios, end with something else than promised?  (The stages may be arranged otherwise.)"""
    own = Report(pid)
    cfg = CFG % ", ".join('"%s"' % p for p in sorted({pid, "P02", "P03", "P04", "P07", "P23", "P25", "P26"}))
    try:
        for s in (scenarios[k - 1:k], scenarios):
            if not validate(work, own, pid, variant, s, False, "MpsTrace", cfg):
                return True
    finally:
        for s in scenarios:
            s.hooks = True
    return False


def record(work, rep, variant, scenarios, hooks, env=None):
    """Run the scenarios on the variant's driver; the recorded trace, and whether the trace points were there."""
    exe, have = build_step(work, variant, hooks)
    if hooks and not have:
        rep.notes.append("%s: the trace points do not compile; judged from the visible state only" % variant)
        hooks = False
    for s in scenarios:
        s.hooks = hooks
    texts = [s.text() for s in scenarios]
    with LOCK:
        COUNT[0] += 1
        tag = "%s-%s-%d" % (variant, "h" if hooks else "b", COUNT[0])
    trace = work.path("traces", tag + ".ndjson")
    run_driver(work, exe, texts, trace, env)
    return trace, hooks


LOCK, COUNT = threading.Lock(), [0]


def validate(work, rep, pid, variant, scenarios, hooks=True, module="MpsTrace", cfg=None, env=None, label=None):
    """Run the scenarios on the variant's driver, let TLC judge the recorded traces for the property pid."""
    label = label or (variant + ("" if hooks else "/visible state only"))
    trace, hooks = record(work, rep, variant, scenarios, hooks, env)
    return judge(work, rep, pid, variant, scenarios, trace, hooks, module, cfg or cfg_for(pid), label)


def validate_many(work, rep, pid, jobs):
    """The same for several (variant, scenarios, hooks, label): TLC is started once for all of them."""
    can = buildable(work, rep, sorted({(j[0], j[2]) for j in jobs}))
    jobs = [j for j in jobs if (j[0], j[2]) in can]
    if not jobs:
        return True
    with cf.ThreadPoolExecutor(CORES) as ex:
        made = list(ex.map(lambda j: record(work, rep, j[0], j[1], j[2]), jobs))
    batches, size = [[]], 0
    for j, (trace, hooks) in zip(jobs, made):
        z = os.path.getsize(trace)
        if batches[-1] and size + z > 150e6:
            batches.append([])
            size = 0
        batches[-1].append((j, trace, hooks))
        size += z
    for batch in batches:
        every = work.path("traces", "every.ndjson")
        k, whose = 0, {}
        with open(every, "w") as f:
            for item in batch:
                j, trace, hooks = item
                last = None
                for line in open(trace, errors="replace"):
                    m = re.search(r'"k":\s*(\d+)', line)
                    if m.group(1) != last:
                        k, last = k + 1, m.group(1)
                        whose[k] = item
                    f.write(line[:m.start()] + '"k":%d' % k + line[m.end():])
        r = tlc(work, "MpsTrace", cfg_for(pid), {"TRACE": every})
        os.remove(every)
        if r.ok and r.done:
            rep.add(states=r.distinct, transitions=r.generated, traces_validated_against_impl=len(r.done),
                    events=sum(d[1] for d in r.done), steps=sum(d[2] for d in r.done), particle_states=sum(d[3] for d in r.done))
            rep.sample("%s: %d scenarios, %d events, %d steps" % (", ".join(sorted({j[0] for j, _, _ in batch})), len(r.done), sum(d[1] for d in r.done), sum(d[2] for d in r.done)))
            continue
        first = whose.get(int(r.field("scenario") or 0))
        for j, trace, hooks in sorted(batch, key=lambda item: item is not first):
            if not judge(work, rep, pid, j[0], j[1], trace, hooks, "MpsTrace", cfg_for(pid), j[3] or j[0]):
                return False
    return True


def judge(work, rep, pid, variant, scenarios, trace, hooks, module, cfg, label):
    r = tlc(work, module, cfg, {"TRACE": trace})
    rep.add(states=r.distinct, transitions=r.generated, traces_validated_against_impl=len(r.done),
            events=sum(d[1] for d in r.done), steps=sum(d[2] for d in r.done), particle_states=sum(d[3] for d in r.done))
    if sum(d[4] for d in r.done if len(d) > 4):
        rep.add(pairs_of_runs_compared=sum(d[4] for d in r.done))
    rep.sample(*["%s %s: %s" % (label, scenarios[d[0] - 1].name, "%d events, %d steps, %d particle states" % d[1:4])
                 for d in r.done[:3] if 0 < d[0] <= len(scenarios)])
    if r.ok:
        if len(r.done) < 1:
            raise CheckError("nothing was checked: " + r.out[-1500:])
        return True
    k = int(r.field("scenario") or 0)
    if not (r.violated or r.deadlock) or k < 1:
        raise CheckError("TLC failed on %s: %s" % (label, r.out[-3000:]))
    name = scenarios[k - 1].name if k <= len(scenarios) else "?"
    # once more, on this scenario alone
    one = work.path("traces", "one.ndjson")
    lines = split_scenarios(trace)[k]
    with open(one, "w") as f:
        f.writelines(lines)
    r2 = tlc(work, module, cfg, {"TRACE": one})
    if not (r2.violated or r2.deadlock):
        raise CheckError("a rejection was not repeated: " + r.out[-1500:])
    if r2.deadlock and not r2.violated:
        if hooks:
            # The stages are not where the specification expects them.  Whether the promises are kept
            # is then decided from the visible state.
            rep.notes.append("%s: event %s not expected after %s; judged from the visible state" % (name, r2.field("next"), r2.field("event")))
            return validate(work, rep, pid, variant, scenarios, False, module, cfg, label=label + "/visible state only")
        what = "event %s is not allowed after %s" % (r2.field("next"), r2.field("event"))
    else:
        what = r2.field("bad")
        if hooks and pid not in INSIDE and not confirmed(work, rep, pid, variant, scenarios, lines, k):
            rep.notes.append("%s: %s, at event %s: %s - inside the step only: no step ends with anything else than promised; not reported" % (
                label, name, r2.field("event"), what[:300]))
            return True
    msg = "%s, scenario %s, at event %s: %s" % (label, name, r2.field("event"), what)
    rep.violation(msg, {"trace.ndjson": "".join(lines), "scenario.txt": scenarios[k - 1].text() if k <= len(scenarios) else "",
                        "tlc.txt": r2.out[-20000:],
                        "how.txt": "variant %s (see tools/lib.py VARIANTS), driver harness/step.cpp on scenario.txt gives trace.ndjson;\n"
                                   "TRACE=trace.ndjson tlc with spec/%s.tla rejects it (tlc.txt).\n%s\n" % (variant, module, msg)})
    return False
