"""All small configurations: TLC explores MpsMC.tla, the real code makes the same histories, MpsTrace.tla judges them."""
import itertools
import random
import struct
import scen
import trace
from lib import *

INVARIANTS = ("P01_Mutual P02_Types P02_Frozen P02_Restricted P04_Clock P05_Dense P06_Falls P07_WallsMove P08_Matrix P10_NonNegative "
              "P12_KeepsDistance P12_Apart P21_Mirrored P21_Renumbered P22_Cancels Behaviour")
UNIT = 0.25


def real(x):
    a, b = struct.unpack(">ii", struct.pack(">d", float(x)))
    return "<<%d, %d>>" % (a, b)


def double(p):
    return struct.unpack(">d", struct.pack(">ii", *p))[0]


def rvec(v):
    return "<<%s>>" % ", ".join(real(c) for c in v)


def kinds(dim):
    """decisive particles; positions and velocities in quarters of the spacing"""
    up = lambda x, z: (x, z) if dim == 2 else (x, 8, z)
    core = [up(8, 8), up(9, 8), up(11, 8), up(12, 8), up(16, 8), up(20, 8), up(8, 9), up(8, 11), up(12, 12), up(11, 12)]
    rim = [up(0, 0), up(-1, 8), up(8, -1), up(47, 8), up(48, 8), up(8, 35), up(8, 36), up(7, 36)]
    still, right, down = up(0, 0), up(4, 0), up(0, -8)      # speeds by which the time step is exact
    if dim == 3:
        still, right, down = (0, 0, 0), (4, 0, 0), (0, 0, -8)
    F, W, D, X = 0, 1, 2, 3
    r = []
    for x in core:
        r += [(F, x, still, 0), (F, x, right, 16), (F, x, down, 0), (W, x, still, 16), (D, x, still, 0)]
    r += [(X, core[0], right, 16), (X, core[3], down, 0), (F, core[1], up(32, 0) if dim == 2 else (32, 0, 0), 0)]
    for x in rim:
        r += [(F, x, still, 0), (F, x, right, 16), (W, x, still, 16), (D, x, still, 0)]
    return r


class Case:
    """one exploration: the environment, which lists of particles, how deep"""

    def __init__(self, name, n, depth, nu, exact, wv=0.0, stride=None, later=(), g=0.5):
        self.name, self.n, self.depth, self.nu, self.exact, self.wv, self.stride, self.later, self.g = name, n, depth, nu, exact, wv, stride, later, g


CASES = dict(
    single=Case("singles, three operations", 1, 3, 0.0, False, 0.5, later=("core",)),
    pairs=Case("pairs, one step, exact", 2, 1, 0.0, True, 0.0),
    visc=Case("pairs, one step, viscous", 2, 1, 0.125, False, 0.5),
    triples=Case("triples, one step, exact", 3, 1, 0.0, True, 0.25),
    history=Case("pairs, three operations", 2, 3, 0.125, False, 0.25, later=("core", "rim")),
    quads=Case("four particles, two steps", 4, 2, 0.03125, False, 0.125))


def lists(K, n, r, most):
    """all lists of n particles on different positions (indices from 1), or `most' of them at random"""
    if n == 1:
        every = [(i + 1,) for i in range(len(K))]
        return every if len(every) <= most else r.sample(every, most)
    if n == 2:
        every = [c for c in itertools.permutations(range(1, len(K) + 1), 2) if K[c[0] - 1][1] != K[c[1] - 1][1]]
        return every if len(every) <= most else r.sample(every, most)
    got = set()
    while len(got) < most:
        # neighbours more often than not
        c = tuple(r.sample(range(1, len(K) + 1), n))
        if len({K[i - 1][1] for i in c}) == n:
            got.add(c)
    return sorted(got)


def explore(case, quick, thorough, variant="default", hooks=False):
    """variant: one, or several of the same dimension"""
    c = CASES[case]
    names = [variant] if isinstance(variant, str) else list(variant)

    def part(work, rep, pid, tier, seed):
        most = thorough if tier == "thorough" else quick
        if not most:
            return
        optsOf = {n: dict(scen.DEFAULT_OPTS, **VARIANTS[n][2]) for n in names}
        dim = optsOf[names[0]]["dim"]
        r = random.Random("mc/%s/%s/%s/%s" % (pid, case, "+".join(names), seed))
        K = kinds(dim)
        L = lists(K, c.n, r, most)
        core = [i + 1 for i, k in enumerate(K) if 8 <= k[1][0] <= 20 and k[0] in (0, 1)]
        rim = [i + 1 for i, k in enumerate(K) if not 8 <= k[1][0] <= 20]
        later = ([r.choice(core)] if "core" in c.later else []) + ([r.choice(rim)] if "rim" in c.later else [])
        mn, mx = (0.0,) * dim, (6.0, 3.0) if dim == 2 else (6.0, 4.0, 3.0)
        env = scen.Env(maxdt=0.5, courant=0.25, g=c.g, rho=1.0, nu=c.nu, ratio=2.0, l0=1.0, eps=1e-10, sr=0.95, c=8.0, min=mn, max=mx)
        wv = (c.wv,) + (0.0,) * (dim - 1)
        bools = lambda o: ", ".join("%s |-> %s" % (k, str(bool(o[k])).upper()) for k in ("spp", "hs", "hl", "ecs", "ds", "gc", "expl", "central"))
        consts = ["TheOs_ == {%s}" % ", ".join('[name |-> "%s", dim |-> %d, %s]' % (n, dim, bools(o)) for n, o in optsOf.items()),
                  "TheQ_ == [%s, min |-> %s, max |-> %s]" % (", ".join("%s |-> %s" % (k, real(v)) for k, v in dict(
                      l0=1.0, courant=0.25, ratio=2.0, maxdt=0.5, g=c.g, rho=1.0, nu=c.nu, sr=0.95, c=8.0).items()), rvec(mn), rvec(mx)),
                  "Wv_ == " + rvec(wv), "Unit_ == " + real(UNIT), "Dts_ == {%s}" % real(0.125),
                  "Kinds_ == <<%s>>" % ", ".join("[ty |-> %d, x |-> <<%s>>, u |-> <<%s>>, p |-> %d]" % (
                      t, ", ".join(map(str, x)), ", ".join(map(str, u)), p) for t, x, u, p in K),
                  "Lists_ == {%s}" % ", ".join("<<%s>>" % ", ".join(map(str, q)) for q in L),
                  "Later_ == {%s}" % ", ".join(map(str, later))]
        cfg = "SPECIFICATION MSpec\nCONSTANTS %s Depth = %d\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (
            " ".join("%s <- %s_" % (n, n) for n in "TheOs TheQ Wv Lists Later Kinds Unit Dts".split()), c.depth, INVARIANTS)
        res = tlc(work, "MpsMC", cfg, module_consts=consts)
        if not res.ok:
            raise CheckError("MpsMC %s: %s" % (case, res.out[-4000:]))
        hists = [json.loads(json.loads(line)) for line in res.out.splitlines() if line.startswith('"{')]
        if not hists:
            raise CheckError("MpsMC printed no histories: " + res.out[-2000:])
        rep.add(states=res.distinct, transitions=res.generated, histories_explored_and_replayed=len(hists))
        rep.sample("%s (%s): %d lists, %d states, %d histories replayed" % (c.name, ", ".join(names), len(L), res.distinct, len(hists)))
        S = {n: [] for n in names}
        for k, h in enumerate(hists):
            s = scen.Scenario("%s%d" % (case, k), env, optsOf[h["name"]], exact=c.exact, wall=(wv, (0.0,) * dim, (0.0,) * dim)).new()
            for o in h["hist"]:
                if o["op"] == "add":
                    s.put([scen.P(t, [UNIT * v for v in x], [UNIT * v for v in u], UNIT * p, 0.0) for t, x, u, p in (K[i - 1] for i in o["ps"])]).do("add")
                elif o["op"] == "auto":
                    s.do("auto 1")
                else:
                    s.do("fixed 1 %r" % double(o["dt"]))
            s.threads = 2
            S[h["name"]].append(s)
        trace.validate_many(work, rep, pid, [(n, s, hooks, "%s/%s" % (n, c.name)) for n, s in S.items() if s])
    return part
