"""Which machinery decides which property, and with how much work."""
import random
import app
import cg
import scen
import gcinv
import grid
import mc
import par
import trace
from lib import *

COMMON = ["IEEE-754 double arithmetic; comparisons allow for rounding (1e-11 of the sum of the absolute contributions)",
          "executions are those of the generated scenarios; TLC judges every recorded stage of every step"]
LEVEL = {}
ASSUMPTIONS = {}

# families and how often they appear in one unit of work
BASE = dict(tank=2, cloud=5, border=3, exit=3, grow=3, lone=3, dense=4, close=4, ties=4, crowd=1, long=1, extreme=5, types=5, pair=2,
            history=2, big=1, wide=1, marathon=1)
MIX = {
    "P01": dict(wide=5, border=10, ties=14, crowd=4, exit=4, grow=4, big=2),
    "P02": dict(wide=3, exit=12, border=10, ties=6, history=4),
    "P03": dict(grow=12, exit=4, pair=4, history=4, types=4),
    "P04": dict(exit=6, extreme=12, types=6, pair=4, history=3),
    "P05": dict(cloud=8, dense=8, lone=4, ties=8, extreme=6),
    "P06": dict(cloud=10, dense=6, extreme=10, ties=4),
    "P07": dict(cloud=12, exit=6, pair=4, types=8, tank=4),
    "P08": dict(dense=12, grow=6, cloud=6, lone=4, exit=4),
    "P09": dict(dense=8, lone=6, close=8, extreme=8, types=6),
    "P10": dict(dense=12, cloud=6, types=8, exit=3),
    "P11": dict(dense=8, cloud=10, lone=6, extreme=8),
    "P12": dict(close=20, dense=6, ties=6),
    "P15": dict(wide=5, crowd=6, border=8, ties=6),
    "P22": dict(dense=10, cloud=10, close=8),
    "P23": dict(crowd=12, close=10, lone=4),
    "P25": dict(dense=6, cloud=6, grow=4, history=3),
}


def mix(pid, factor):
    m = dict(BASE)
    m.update(MIX.get(pid, {}))
    return {f: max(1, int(round(n * factor))) for f, n in m.items()}


def steps(variant="default", quick=1.0, thorough=8.0, hooks=True, families=None):
    """validate recorded steps of a variant"""
    def part(work, rep, pid, tier, seed):
        factor = thorough if tier == "thorough" else quick
        fam = families or mix(pid, 1)
        rounds = max(1, int(round(sum(fam.values()) * factor / 150)))
        if set(fam) == {"env"}:
            rounds = 1
        for i in range(rounds):
            counts = {f: max(1, int(round(n * factor / rounds))) for f, n in fam.items()}
            S = scen.make("%s/%s/%s/%d" % (pid, variant, seed, i), counts, VARIANTS[variant][2], hooks)
            if not trace.validate(work, rep, pid, variant, S, hooks):
                return
    return part


CHECKS = {p: [steps(quick=2.0, thorough=24.0), steps(quick=0.5, thorough=6.0, hooks=False)] for p in
          ("P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P15", "P16", "P22", "P25")}

TWIN_MIX = dict(twin_pump=6, twin_exit=6, twin_grow=6, twin_pair=10, twin_history=4, twin_dense=6, twin_cloud=6, twin_close=3, twin_tank=2,
                twin_long=1, twin_extreme=4, twin_border=2, twin_types=3, twin_ties=2, twin_crowd=1, twin_marathon=1)
IMAGE_MIX = dict(image_cloud=12, image_dense=8, image_close=6, image_exit=6, image_grow=3, image_tank=2, image_lone=3, image_border=3,
                 image_types=3, image_pump=3, image_pair=2, image_history=2, image_long=1)


def prebuild(names, hooks=False):
    """the drivers of several variants, side by side"""
    def part(work, rep, pid, tier, seed):
        buildable(work, rep, [(n, hooks) for n in names])
    return part


SOME = ["default", "serial", "gc", "noviennacl", "std", "dim3", "expl"]
CHECKS["P13"] = [prebuild(SOME), steps(quick=2.0, thorough=24.0, hooks=False, families=TWIN_MIX)] + [
    steps(n, quick=0.15 if n == "dim3" else 0.3, thorough=3.0, hooks=False, families=TWIN_MIX) for n in SOME[1:]]
CHECKS["P21"] = [prebuild(SOME), steps(quick=2.0, thorough=24.0, hooks=False, families=IMAGE_MIX)] + [
    steps(n, quick=0.15 if n == "dim3" else 0.3, thorough=3.0, hooks=False, families=IMAGE_MIX) for n in SOME[1:]]
RACE_MIX = dict(race_cloud=6, race_dense=4, race_close=3, race_exit=2, race_grow=3, race_pair=3, race_tank=1, race_border=1, race_types=2)
CHECKS["P14"] = [par.model, par.footprints(dict(default=1.0, noviennacl=0.4, gc=0.4, std=0.4, expl=0.4, dim3=0.2),
                                           dict(default=16.0, noviennacl=4.0, gc=4.0, std=4.0, expl=4.0, dim3=2.0), RACE_MIX),
                 prebuild(["default", "noviennacl"]), steps(quick=2.0, thorough=20.0, hooks=False, families=dict(RACE_MIX, race_big=3)),
                 steps("noviennacl", quick=0.5, thorough=5.0, hooks=False, families=dict(RACE_MIX, race_big=1))]
for _p in ("P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P10", "P11", "P12", "P22"):
    CHECKS[_p] += [mc.explore("pairs", 400, 7000, hooks=True), mc.explore("visc", 0, 4000, hooks=True), mc.explore("triples", 0, 8000, hooks=True)]
for _p in ("P02", "P03", "P04", "P07"):
    CHECKS[_p] += [mc.explore("history", 25, 400, hooks=True), mc.explore("single", 0, 100)]
CHECKS["P25"] += [mc.explore("pairs", 400, 7000), mc.explore("triples", 400, 10000), mc.explore("history", 25, 600), mc.explore("quads", 0, 3000),
                  mc.explore("visc", 0, 7000), mc.explore("single", 0, 100)]
CHECKS["P09"] = [cg.solves] + CHECKS["P09"]
CHECKS["P15"] = [grid.explore, grid.replay] + CHECKS["P15"]


def variants(names, quick=0.35, thorough=4.0, families=None, hooked=(True, False)):
    """validate recorded steps of several variants; the drivers are built and run side by side"""
    def part(work, rep, pid, tier, seed):
        rounds = 1 if tier != "thorough" or thorough > 100 else max(1, int(round(thorough / 2)))
        for turn in range(rounds):
            jobs = []
            for n in names:
                small = 0.6 if VARIANTS[n][2].get("dim") == 3 else 1.0
                for hooks in hooked:
                    f = small if hooks else small * 0.4
                    fam = families
                    if fam is None and tier != "thorough":  # a changing selection
                        r = random.Random("%s/%s/%s/%s" % (pid, n, seed, hooks))
                        fam = {k: BASE[k] for k in (["cloud", "dense", "exit", "close"] if hooks else ["cloud", "dense"])}
                        fam.update({k: 1 for k in r.sample(["border", "grow", "lone", "ties", "extreme", "types", "pair", "tank", "history"], 3 if hooks else 2)})
                    factor = (thorough / rounds if tier == "thorough" else quick) * f
                    counts = {k: max(1, int(round(m * factor))) for k, m in (fam or mix(pid, 1)).items()}
                    S = scen.make("%s/%s/%s/%d" % (pid, n, seed, turn), counts, VARIANTS[n][2], hooks)
                    jobs.append((n, S, hooks, n + ("" if hooks else "/visible state only")))
            if not trace.validate_many(work, rep, pid, jobs):
                return
    return part


OTHERS = [v for v in VARIANTS if v != "default"]
TWO = [v for v in OTHERS if VARIANTS[v][2].get("dim", 2) == 2]
THREE = [v for v in OTHERS if v not in TWO]
CHECKS["P26"] = [variants(OTHERS), mc.explore("triples", 25, 800, TWO), mc.explore("triples", 20, 400, THREE)] + [
    mc.explore(c, 0, n, V, h) for V in (TWO, THREE) for c, n, h in (("pairs", 1200, True), ("visc", 600, False), ("history", 25, False))]
CHECKS["P16"] = [steps(quick=150.0, thorough=3000.0, hooks=False, families=dict(env=1)),
                 variants(["std", "nospp", "expl", "dim3", "dim3std", "dim3expl", "dim3nospp", "central"], 60.0, 1000.0, dict(env=1), (False,))] + CHECKS["P16"]
GC_MIX = dict(cloud=6, dense=6, lone=3, tank=2, close=2, ties=3, border=2, extreme=3)
CHECKS["P24"] = [gcinv.inverses, variants(["gc", "dim3gc", "gcstd"], 1.2, 8.0, GC_MIX)]



def app_mix(**weights):
    """cases of several families in turn"""
    fams = [f for f, n in weights.items() for _ in range(n)]

    def make(r, i, o):
        f = fams[i % len(fams)]
        if f == "settings":
            return app.rejected(r, "missing%d" % i, kind="setting:" + app.needed(**o)[(i // len(fams)) % len(app.needed(**o))], **o)
        c = getattr(app, f)(r, "%s%d" % (f, i), **o)
        c.frames_back = c.ok and r.random() < 0.3
        return c
    return make


CHECKS["P17"] = [app.explore, app.runs(app_mix(schedule=6, base=2, failing=1, unwritable=1), 240, 2000), app.runs(app_mix(schedule=1, base=1, unwritable=1), 18, 120, "dim3")]
CHECKS["P18"] = [app.runs(app_mix(rejected=3, reads=3, base=1), 420, 4200), app.runs(app_mix(rejected=1), 80, 800, ndebug=True), app.runs(app_mix(rejected=2, reads=2), 60, 600, "dim3")]
CHECKS["P19"] = [app.runs(app_mix(base=3, reads=2, schedule=1), 150, 1500), app.roundtrip(40, 400), app.runs(app_mix(base=1, reads=1), 24, 240, "dim3"), app.roundtrip(8, 80, "dim3")]
CHECKS["P20"] = [app.runs(app_mix(sensitive=6, settings=4, base=2, huge=1), 156, 1560), app.runs(app_mix(sensitive=2, settings=2), 56, 300, "dim3"),
                 app.runs(app_mix(sensitive=4, settings=4, huge=1), 63, 300, "nospp"), app.runs(app_mix(sensitive=2, settings=2), 56, 300, "expl")]
CHECKS["P23"] = [app.runs(app_mix(failing=4, base=1, rejected=1, unwritable=2), 160, 1600), app.runs(app_mix(failing=1), 24, 200, "dim3"), app.runs(app_mix(failing=1), 24, 200, "expl"),
                 steps(quick=1.0, thorough=12.0), steps(quick=0.3, thorough=3.0, hooks=False)]

SMALLMC = "; and TLC explores the specification on small configurations and histories, which are replayed into the real code"
TECH = "TLA+ specification of a time step; TLC validates traces recorded from the real code stage by stage and as whole steps"
APP = "TLA+ specification of the application; exhaustive exploration by TLC, its histories replayed into the real program, and recorded runs of the real program validated by TLC"
TWIN = TECH + "; and runs that must agree are compared by the specification"
TECHNIQUE = dict(
    P09=TECH + "; and a TLA+ specification of the solver runs on every recorded system, which decides what the real solver may answer",
    P13=TWIN, P21=TWIN,
    P14="TLA+ model of parallel loops (TLC, all interleavings): race-free loops are deterministic; TLC judges the recorded memory footprints of every "
        "iteration of the real loops against the model's condition, and compares runs under simulated and real schedules with sequential ones",
    P15="TLA+ model of the neighbour grid explored exhaustively by TLC, its histories replayed into the real grid, and random recorded histories validated by TLC; " + TECH,
    P17=APP, P18=APP, P19=APP, P20=APP, P23=APP,
    **{p: TECH + SMALLMC for p in "P01 P02 P03 P04 P05 P06 P07 P08 P10 P11 P12 P22 P25 P26".split()},
    P24="TLA+ specification of the inverses, TLC judges those the real code computes (small integer matrices exhaustively); " + TECH)
LEVEL_NOTE = ("Every recorded stage of every step of the generated scenarios is judged by TLC against the specification Mps.tla, and whole steps "
              "from the public state alone. Sound for what was executed; scenario families aim at the borders of each rule. Trusts TLC, the Java "
              "evaluation of IEEE doubles, the compiler.")
NOTE = {}
NOT_APPLICABLE = {}
