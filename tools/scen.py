"""Scenario families for the step driver (harness/step.cpp).

A scenario is a list of driver commands.  Every family is a function of a random.Random; numbers are
written so that the driver reads exactly the double meant (repr).
"""
import math
import random

DEFAULT_OPTS = dict(spp=True, hs=True, hl=True, ecs=True, ds=True, gc=False, expl=False, central=False, dim=2, focus=[])
FLUID, WALL, DUMMY, DISABLED = 0, 1, 2, 3


class Env:
    def __init__(self, **kw):
        self.maxdt = 1.0 / 100
        self.courant = 0.1
        self.g = 9.8
        self.rho = 998.2
        self.nu = 1.004e-6
        self.ratio = 2.4
        self.l0 = 0.1
        self.eps = 1e-10
        self.sr = 0.95
        self.c = 10.0
        self.min = (-0.5, -0.5)
        self.max = (3.0, 2.0)
        for k, v in kw.items():
            setattr(self, k, v)

    @property
    def re(self):
        return self.ratio * self.l0

    @property
    def nl(self):
        return self.re * (1 + 2 * self.courant)

    def line(self):
        v = [self.maxdt, self.courant, self.g, self.rho, self.nu, self.ratio, self.l0, self.eps, self.sr, self.c]
        return "env " + " ".join(repr(float(x)) for x in v + list(self.min) + list(self.max))


class Scenario:
    def __init__(self, name, env, opts=None, exact=False, hooks=True, wall=None):
        self.name, self.env, self.exact, self.hooks = name, env, exact, hooks
        self.opts = dict(DEFAULT_OPTS, **(opts or {}))
        self.cmds = []
        self.wall = wall          # (v, q, d)
        self.threads = 4

    def head(self):
        import json
        r = ["scenario " + self.name, "opts " + json.dumps(self.opts)]
        if self.exact:
            r.append("exact")
        if not self.hooks:
            r.append("hooks 0")
        r.append("threads %d" % self.threads)
        r.append(self.env.line())
        if self.wall:
            r.append("wall " + " ".join(repr(float(x)) for v in self.wall for x in v))
        return r

    def new(self, i=0):
        self.cmds.append("new %d" % i)
        return self

    def put(self, ps):
        for ty, x, u, p, n in ps:
            self.cmds.append("p %d %s" % (ty, " ".join(repr(float(v)) for v in list(x) + list(u) + [p, n])))
        return self

    def do(self, *cmds):
        self.cmds += cmds
        return self

    def text(self):
        return "\n".join(self.head() + self.cmds) + "\n"


def P(ty, x, u=None, p=0.0, n=0.0):
    return (ty, tuple(x), tuple(u) if u is not None else (0.0,) * len(x), p, n)


def jit(r, x, a):
    return tuple(v + r.uniform(-a, a) for v in x)


def rvel(r, s, dim=2):
    return tuple(r.uniform(-s, s) for _ in range(dim))


def lattice(env, nx, nz, ox=0.0, oz=0.0):
    return [(ox + i * env.l0, oz + k * env.l0) for i in range(nx) for k in range(nz)]


# ---------------------------------------------------------------------------------------------------
def tank(r, env, w, h, layers=1, dummies=2, jitter=0.1, speed=0.1, pmax=500.0, lid=False):
    """fluid block in a walled tank; order shuffled"""
    l0 = env.l0
    ps = []
    for i in range(w):
        for k in range(h):
            ps.append(P(FLUID, jit(r, (i * l0, k * l0), jitter * l0), rvel(r, speed), r.uniform(0, pmax) * r.choice([0, 1])))
    for t in range(layers + dummies):
        ty = WALL if t < layers else DUMMY
        for i in range(-layers - dummies, w + 2):
            if -t - 1 <= i <= w + 1:
                ps.append(P(ty, jit(r, (i * l0, -(t + 1) * l0), 0.02 * l0), p=(r.uniform(0, pmax) if ty == WALL else 0.0)))
        for k in range(-t, h + 1):
            ps.append(P(ty, jit(r, (-(t + 1) * l0, k * l0), 0.02 * l0)))
    r.shuffle(ps)
    return ps


def box_for(ps, env, pad=2.0):
    xs = [p[1] for p in ps]
    d = len(xs[0])
    return (tuple(min(x[a] for x in xs) - pad * env.nl for a in range(d)),
            tuple(max(x[a] for x in xs) + pad * env.nl for a in range(d)))


def cloud(r, env, n, spread=1.0, types=(0, 0, 0, 0, 1, 1, 2), speed=0.5, pmax=1000.0, mindist=0.5, dim=2):
    """n particles at random, no two closer than mindist*l0, at about lattice density times 1/spread^2"""
    side = (n ** (1.0 / dim)) * env.l0 * spread
    ps = []
    tries = 0
    while len(ps) < n:
        x = tuple(r.uniform(0, side) for _ in range(dim))
        tries += 1
        if tries > 200 * n:
            side *= 1.1
            tries = 0
        if all(math.dist(x, q[1]) > mindist * env.l0 for q in ps):
            ps.append(P(r.choice(types), x, rvel(r, speed, dim), r.uniform(0, pmax) * r.choice([0, 1]), r.uniform(0, 8)))
    return ps


def rand_env(r, **kw):
    l0 = kw.pop("l0", r.choice([0.1, 0.01, 1.0, 0.037]))
    e = dict(l0=l0, courant=r.choice([0.1, 0.05, 0.2, 0.3]), g=r.choice([9.8, 1.0, 0.1]), rho=r.choice([998.2, 1.0, 1.3]),
             nu=r.choice([1e-6, 1e-3, 0.1]) * (l0 / 0.1) ** 2, ratio=r.choice([2.1, 2.4, 3.1, 1.8, 2.0]),
             maxdt=r.choice([0.01, 0.001, 0.003]))
    e.update(kw)
    return Env(**e)


# ---------------------------------------------------------------------------------------------------
# Families: each yields Scenario objects.  The dimension follows opts["dim"].
def dim_of(opts):
    return (opts or {}).get("dim", 2)


def unit(r, D):
    while True:
        v = [r.uniform(-1, 1) for _ in range(D)]
        m = math.sqrt(sum(c * c for c in v))
        if 0.1 < m < 1:
            return tuple(c / m for c in v)


def along(x, q, e):
    return tuple(a + q * b for a, b in zip(x, e))


def fam_tank(r, k, opts=None, steps=3, big=False):
    """fluid in a walled tank at rest or moving: the everyday case"""
    env = rand_env(r)
    D = dim_of(opts)
    if D == 2:
        w, h = (r.randint(3, 5), r.randint(3, 4)) if not big else (r.randint(7, 10), r.randint(5, 7))
        ps = tank(r, env, w, h, speed=r.choice([0.0, 0.1, 1.0]) * env.l0 * 10)
    else:
        ps = []
        sp = r.choice([0.0, 0.1, 1.0]) * env.l0 * 10
        w = 5 if big else 4
        for i in range(-1, w):
            for j in range(-1, w):
                for m in range(-2, 3):
                    ty = DUMMY if m == -2 else WALL if (m == -1 or i == -1 or j == -1) else FLUID
                    x = jit(r, (i * env.l0, j * env.l0, m * env.l0), 0.05 * env.l0)
                    ps.append(P(ty, x, rvel(r, sp, 3) if ty == FLUID else None, r.uniform(0, 500) * r.choice([0, 1]) if ty != DUMMY else 0.0))
        r.shuffle(ps)
    env.min, env.max = box_for(ps, env)
    s = Scenario("tank%d" % k, env, opts).new().put(ps).do("add")
    s.do("auto %d" % steps)
    return s


def fam_cloud(r, k, opts=None, steps=3, n=None, spread=None):
    env = rand_env(r)
    D = dim_of(opts)
    ps = cloud(r, env, n or r.randint(8, 30) * (D - 1), spread=spread or r.choice([0.75, 1.0, 1.3, 2.0]), speed=r.choice([0.1, 1, 5]) * env.l0,
               pmax=r.choice([0, 10, 1000.0]), mindist=r.choice([0.35, 0.5, 0.8]), dim=D)
    env.min, env.max = box_for(ps, env)
    s = Scenario("cloud%d" % k, env, opts, wall=rand_wall(r, env, D)).new().put(ps).do("add")
    m = r.random()
    if m < 0.5:
        s.do("auto %d" % steps)
    elif m < 0.8:
        s.do("fixed %d %r" % (steps, r.uniform(0.2, 1.0) * env.maxdt))
    else:
        s.do("auto 1", "fixed 1 %r" % (0.7 * env.maxdt), "auto %d" % max(1, steps - 2))
    return s


def rand_wall(r, env, D=2):
    if r.random() < 0.4:
        return None
    v = [r.uniform(-1, 1) * env.l0 for _ in range(D)]
    q = [r.uniform(-1, 1) * env.l0 for _ in range(D)]
    d = [r.choice([0, 1]) * r.uniform(-1, 1) * env.l0 for _ in range(D)]
    return (v, q, d)


def fam_border(r, k, opts=None, steps=2):
    """small domain: particles at block borders, corners, in the upper margin, just outside"""
    env = rand_env(r)
    D = dim_of(opts)
    nl = env.nl
    bs = [r.randint(1, 3 if D == 2 else 2) for _ in range(D)]
    env.min = tuple(r.uniform(-1, 1) * env.l0 for _ in range(D))
    env.max = tuple(env.min[a] + (bs[a] - r.uniform(0.05, 0.9)) * nl for a in range(D))
    top = [int(math.ceil((env.max[a] - env.min[a]) / nl)) + 2 for a in range(D)]
    ps = []

    def far(x):
        return all(math.dist(x, q[1]) > 0.3 * env.l0 for q in ps)
    n = r.randint(15, 35) * (D - 1)
    for _ in range(2000):
        if len(ps) >= n:
            break
        x = []
        for a in range(D):
            m = r.random()
            if m < 0.35:    # close to a block border
                v = env.min[a] + r.randint(0, top[a]) * nl + r.choice([-1, 1]) * r.choice([1e-6, 1e-3, 0.02]) * nl
            elif m < 0.5 - 0.1 * (D - 2):   # outside
                v = env.min[a] + r.choice([-0.05, -1.5, top[a] + 0.05, top[a] + 1.5, 1e3]) * nl
            else:
                v = env.min[a] + r.uniform(0, top[a]) * nl
            x.append(v)
        x = tuple(x)
        if far(x):
            ps.append(P(r.choice([0, 0, 0, 1, 2]), x, rvel(r, env.l0, D), r.uniform(0, 100), 0.0))
    s = Scenario("border%d" % k, env, opts, wall=rand_wall(r, env, D)).new().put(ps).do("add")
    return s.do("auto %d" % steps)


def fam_exit(r, k, opts=None, steps=6):
    """fast particles leave through every side while others stay; disabled ones remain in the list"""
    env = rand_env(r, courant=0.3, ratio=2.1)
    D = dim_of(opts)
    env.maxdt = r.choice([0.1, 0.05])
    ps = cloud(r, env, r.randint(10, 18) * (D - 1), spread=1.2, speed=env.l0, mindist=0.6, dim=D)
    lo, hi = box_for(ps, env, 0.0)
    env.min = tuple(v - 0.3 * env.l0 for v in lo)
    env.max = tuple(v + 0.3 * env.l0 for v in hi)
    ps = [(t, x, (tuple(r.choice([-1, 1]) * r.uniform(5, 40) * env.l0 for _ in range(D)) if r.random() < 0.4 else u), p, n) for t, x, u, p, n in ps]
    # already disabled ones, inside, outside, and fast
    for _ in range(3):
        ps.insert(r.randrange(len(ps)), P(DISABLED, tuple(r.uniform(lo[a], hi[a]) for a in range(D)), rvel(r, 100 * env.l0, D), r.uniform(-5, 5), r.uniform(0, 9)))
    s = Scenario("exit%d" % k, env, opts, wall=rand_wall(r, env, D)).new().put(ps).do("add")
    s.do("auto 2", "fixed %d %r" % (max(1, steps - 3), r.uniform(1, 3) * env.maxdt), "auto 1")
    return s


def fam_grow(r, k, opts=None, steps=2):
    """particles added in the middle of a run, several times"""
    env = rand_env(r)
    D = dim_of(opts)
    ps = cloud(r, env, r.randint(12, 24), spread=1.1, speed=env.l0, mindist=0.6, dim=D)
    env.min, env.max = box_for(ps, env)
    s = Scenario("grow%d" % k, env, opts).new()
    i = 0
    while i < len(ps):
        m = r.choice([1, 2, 5, 8, 0])
        s.put(ps[i:i + m]).do("add")
        i += m
        s.do("auto %d" % r.choice([1, 1, steps]))
    return s


def fam_lone(r, k, opts=None):
    """isolated particles, pairs, and almost empty space; a single particle"""
    env = rand_env(r)
    D = dim_of(opts)
    d = 3 * env.nl
    tail = (0.0,) * (D - 2)
    ps = []
    for i in range(r.choice([1, 4])):
        ps.append(P(FLUID, (i * d, 0.0) + tail, rvel(r, env.l0, D), r.uniform(-1, 5)))
    for i in range(r.choice([0, 3])):
        q = r.uniform(0.5, 1.1) * env.re
        x = (i * d, 2 * d) + tail
        ps.append(P(FLUID, x, rvel(r, env.l0, D), r.uniform(0, 5)))
        ps.append(P(r.choice([0, 1, 2]), along(x, q, unit(r, D)), rvel(r, env.l0, D), r.uniform(0, 5)))
    env.min, env.max = box_for(ps, env)
    s = Scenario("lone%d" % k, env, opts).new().put(ps).do("add")
    return s.do("auto 2", "fixed 1 %r" % env.maxdt)


def fam_dense(r, k, opts=None, steps=2):
    """compressed: densities above the reference, so sources and error compensation act"""
    env = rand_env(r, ratio=r.choice([2.1, 2.4, 3.1] if dim_of(opts) == 2 else [1.8, 2.1]))
    D = dim_of(opts)
    q = r.choice([0.8, 0.85, 0.9])
    m = r.randint(5, 6) if D == 2 else 4
    ps = []
    for v in range(m ** D):
        c = [v // m ** a % m for a in range(D)]
        edge = any(a in (0, m - 1) for a in c)
        ty = r.choice([0, 1, 2] if D == 2 else [0, 0, 0, 0, 1, 2]) if edge else r.choice([0, 0, 0, 1])
        ps.append(P(ty, jit(r, tuple(a * q * env.l0 for a in c), 0.08 * env.l0), rvel(r, r.choice([0.1, 1, 10]) * env.l0, D), r.uniform(0, 1000) * r.choice([0, 1, 1]), 0))
    r.shuffle(ps)
    env.min, env.max = box_for(ps, env)
    s = Scenario("dense%d" % k, env, opts, wall=rand_wall(r, env, D)).new().put(ps).do("add")
    return s.do("auto %d" % steps)


def fam_close(r, k, opts=None, steps=2):
    """pairs that are too close, against fluid, walls, dummies; head-on and sliding"""
    env = rand_env(r)
    D = dim_of(opts)
    ps = []
    d = 2.5 * env.nl
    for i in range(4):
        for j in range(2):
            c = (i * d, j * d) + (0.0,) * (D - 2)
            e = unit(r, D)
            q = r.choice([0.3, 0.6, 0.85, 0.95, 1.0 - env.courant - 0.002, 1.0 - env.courant + 0.002]) * env.l0
            v = r.choice([0, 1, 5]) * env.l0
            ps.append(P(FLUID, c, tuple(v * a for a in e), r.uniform(0, 10)))
            ps.append(P(r.choice([0, 0, 1, 2]), along(c, q, e), rvel(r, v, D), r.uniform(0, 10)))
            if r.random() < 0.4:
                f = unit(r, D)
                if sum(a * b for a, b in zip(e, f)) < 0.4:
                    ps.append(P(r.choice([0, 1]), along(c, 0.7 * env.l0, f), rvel(r, v, D), 0.0))
    r.shuffle(ps)
    env.min, env.max = box_for(ps, env)
    s = Scenario("close%d" % k, env, opts).new().put(ps).do("add")
    return s.do("auto %d" % steps)


def fam_ties(r, k, opts=None, steps=1):
    """dyadic coordinates: distances exactly at the neighbour distance, the influence radius, the repulsion
    distance; positions exactly on block borders and domain corners.  All comparisons are exact."""
    D = dim_of(opts)
    l0 = r.choice([1.0, 0.5, 2.0])
    # nl = ratio*l0*(1+2*courant) exact; choose so that nl and re are multiples of l0/4
    courant, ratio = r.choice([(0.25, 2.0), (0.125, 2.0), (0.5, 2.0), (0.25, 2.5), (0.25, 3.0)])
    env = Env(l0=l0, courant=courant, ratio=ratio, g=1.0, rho=1.0, nu=0.0, maxdt=1.0 / 64)
    q = l0 / 4
    m = int(env.nl / q)
    lim = 3 * m
    tail = lambda: tuple(r.choice([0, 0, 3, m]) for _ in range(D - 2))
    zero = (0,) * (D - 2)
    pts = {(0, 0) + zero}
    # exact distances: axis-parallel and 3-4-5
    for d in (m, int(env.re / q), int((1 - courant) * 4), 4):
        for x in ((d, 0), (0, d)) + (((d * 3 // 5, d * 4 // 5),) if d % 5 == 0 else ()):
            pts.add(x + zero)
        if D == 3:
            pts.add((0, 0, d))
    for _ in range(r.randint(6, 14)):
        pts.add((r.randint(0, lim // 3) * 3, r.randint(0, lim // 3) * 3) + tail())
    for x in ((lim, lim), (m, m), (2 * m, 0), (3 * m, 0), (-1, 0), (0, 4 * m)):
        pts.add(x + tail())
    pts = sorted(pts)
    r.shuffle(pts)
    sh = r.choice([0, 16, -64])
    ps = [P(r.choice([0, 0, 1, 2]), tuple((c + sh) * q for c in x), (0.0,) * D, 0.0, 0.0) for x in pts]
    env.min = (sh * q,) * D
    env.max = tuple((sh + r.choice([m, 2 * m, lim])) * q for _ in range(D))
    if r.random() < 0.5:
        env.g = 0.0
        env.maxdt = 1.0 / 64
    s = Scenario("ties%d" % k, env, opts, exact=True).new().put(ps).do("add")
    return s.do("fixed %d %r" % (steps, 1.0 / 64))


def fam_crowd(r, k, opts=None):
    """as many particles in one block as fit, and one more"""
    env = rand_env(r, ratio=r.choice([1.8, 2.1]), courant=0.1)
    D = dim_of(opts)
    cap = (math.ceil(env.nl / env.l0) + 1) ** D
    env.min = (0.0,) * D
    env.max = (2.5 * env.nl,) * D
    over = r.choice([0, 0, 1, 3])
    ps = []
    while len(ps) < cap + over:
        x = tuple(env.nl * (1 + r.uniform(0.01, 0.99)) for _ in range(D))
        if all(math.dist(x, p[1]) > 0.06 * env.l0 for p in ps):
            ps.append(P(r.choice([0, 1, 2, 2]), x, (0.0,) * D, 0.0, 0.0))
    for _ in range(5):
        x = tuple(env.nl * r.uniform(0.2, 3) for _ in range(D))
        if not all(1 <= v / env.nl < 2 for v in x) and all(math.dist(x, p[1]) > 0.1 * env.l0 for p in ps):
            ps.insert(r.randrange(len(ps)), P(r.choice([0, 1, 2]), x))
    if k % 3 == 0:
        # as many neighbours as there can be: every block around one is full, of particles in its reach
        ps = []
        for v in range(3 ** D):
            c = [v // 3 ** a % 3 for a in range(D)]
            m = 0
            while m < (cap if D == 2 else cap // 4 + 2):
                x = tuple(env.nl * (q + (r.uniform(0.55, 0.99) if q == 0 else r.uniform(0.01, 0.45) if q == 2 else r.uniform(0.3, 0.7))) for q in c)
                if all(math.dist(x, p[1]) > 0.03 * env.l0 for p in ps):
                    ps.append(P(r.choice([0, 1, 2, 2, 2]), x, (0.0,) * D, 0.0, 0.0))
                    m += 1
        mid = len(ps) // 2
        focus = sorted(r.sample(range(1, len(ps) + 1), 8) + [mid, mid + 1, mid - 1, mid + 2])
        s = Scenario("packed%d" % k, env, dict(opts or {}, focus=sorted(set(focus)))).new().put(ps).do("add")
        return s.do("fixed 1 %r" % (env.maxdt * 1e-3))
    s = Scenario("crowd%d" % k, env, opts).new().put(ps).do("add")
    return s.do("fixed 1 %r" % (env.maxdt * 1e-2))


def fam_long(r, k, opts=None, quiet=40):
    """a longer history, then checked steps"""
    s = fam_tank(r, k, opts, steps=1)
    s.name = "long%d" % k
    s.do("quiet %d" % quiet, "auto 2")
    return s


def fam_big(r, k, opts=None, n=900):
    """many particles (a dam-break like block with walls), a sample of them judged in detail"""
    D = dim_of(opts)
    env = rand_env(r, ratio=2.1 if D == 3 else r.choice([2.1, 2.4, 3.1]))
    env.eps = 1e-6
    m = int(round(n ** (1.0 / D)))
    ps = []
    for v in range(m ** D):
        c = [v // m ** a % m for a in range(D)]
        lay = min(min(q, m - 1 - q) if a < D - 1 else q for a, q in enumerate(c))
        ty = DUMMY if lay == 0 else WALL if lay == 1 else FLUID
        x = jit(r, tuple(q * env.l0 for q in c), 0.08 * env.l0)
        ps.append(P(ty, x, rvel(r, env.l0, D) if ty == FLUID else None, r.uniform(0, 500) if ty == FLUID else 0.0))
    if r.random() < 0.5:
        r.shuffle(ps)
    env.min, env.max = box_for(ps, env)
    o = dict(opts or {}, focus=sorted(r.sample(range(1, len(ps) + 1), 24) + [1, len(ps)]))
    s = Scenario("big%d" % k, env, o, wall=rand_wall(r, env, D)).new().put(ps).do("add")
    return s.do("auto 1")


def fam_wide(r, k, opts=None):
    """a domain of very many blocks along one axis or all, groups of particles far apart"""
    D = dim_of(opts)
    env = rand_env(r, courant=r.choice([0.1, 0.25]), ratio=r.choice([1.8, 2.1]))
    nl = env.nl
    long = r.choice([40, 140, 270, 530, 70000])
    bs = [long] * D if D == 2 and long < 300 and r.random() < 0.5 else [long if a == k % D else 2 for a in range(D)]
    env.min = tuple(r.choice([0.0, -1.0, -b, -b / 2]) * nl for b in bs)
    env.max = tuple(m + (b - 0.4) * nl for m, b in zip(env.min, bs))
    ps = []
    for spot in r.sample([0, 1, 2, 127, 128, 129, 254, 255, 256, 257, 511, 512, 32767, 32768, 65535, 65536] + [long // 2] * 3, 8) + [long, long - 1]:
        if spot > long + 1:
            continue
        at = [env.min[a] + ((spot if a == k % D or r.random() < 0.5 else r.randint(0, bs[a])) if bs[a] > 2 else r.randint(0, 2)) * nl for a in range(D)]
        for _ in range(300):
            x = tuple(v + r.uniform(-0.4, 0.6) * nl for v in at)
            if all(math.dist(x, q[1]) > 0.6 * env.l0 for q in ps):
                ps.append(P(r.choice([0, 0, 0, 1, 2]), x, rvel(r, env.l0, D), r.uniform(0, 100) * r.choice([0, 1])))
                if len(ps) % 5 == 4:
                    break
    r.shuffle(ps)
    return Scenario("wide%d" % k, env, opts, wall=rand_wall(r, env, D)).new().put(ps).do("add").do("auto 2")


def fam_extreme(r, k, opts=None):
    """unusual but legal parameters: far away domains, tiny and large spacings, no gravity, large Courant numbers, ..."""
    D = dim_of(opts)
    env = Env(l0=r.choice([1e-6, 1e-3, 0.3, 100.0]), courant=r.choice([0.01, 0.5, 0.9]), g=r.choice([0.0, 1e-3, 9.8, 1000.0]),
              rho=r.choice([1e-3, 1.0, 1e4]), ratio=r.choice([1.1, 1.5, 2.0, 3.5, 4.1] if D == 2 else [1.1, 1.5, 2.1]), eps=r.choice([1e-3, 1e-8, 1e-12]),
              sr=r.choice([0.8, 0.95, 0.97, 1.02]), c=r.choice([0.5, 50.0]))
    env.nu = r.choice([0.0, 1e-9, 1e-2, 1.0]) * env.l0 * env.l0
    env.maxdt = r.choice([1e-5, 0.01, 1e3]) if env.g > 0 else r.choice([1e-4, 0.01])
    far = tuple(r.choice([0.0, -1e3, 1e3]) * env.l0 for _ in range(D))
    ps = [(t, tuple(a + b for a, b in zip(x, far)), u, p, n) for t, x, u, p, n in
          cloud(r, env, r.randint(6, 20), spread=r.choice([0.9, 1.2]), speed=r.choice([0, 1, 100]) * env.l0, mindist=0.6, dim=D)]
    env.min, env.max = box_for(ps, env, r.choice([0.01, 1.5]))
    s = Scenario("extreme%d" % k, env, opts, wall=rand_wall(r, env, D)).new().put(ps).do("add")
    return s.do("auto 2", "fixed 1 %r" % (r.choice([0.1, 1.0, 3.0, 1e-6, 40.0, 1000.0]) * min(env.maxdt, math.sqrt(2 * env.courant * env.l0 / env.g) if env.g else 1.0)), "auto 1")


def fam_types(r, k, opts=None):
    """odd populations: nothing at all, one kind only, all disabled, no fluid, negative pressures"""
    D = dim_of(opts)
    env = rand_env(r)
    kind = r.choice(["none", "dummies", "walls", "fluid", "disabled", "nofluid", "negative", "onewall"])
    types = dict(none=(0,), dummies=(2,), walls=(1,), fluid=(0,), disabled=(3,), nofluid=(1, 2, 3), negative=(0, 1, 2, 3), onewall=(0,))[kind]
    ps = cloud(r, env, 0 if kind == "none" else r.randint(1, 14), spread=1.0, types=types, speed=env.l0, mindist=0.6, dim=D)
    if kind == "negative":
        ps = [(t, x, u, r.uniform(-1000, 1000), r.uniform(-1, 20)) for t, x, u, p, n in ps]
    if kind == "onewall":
        ps.insert(r.randint(0, len(ps)), P(WALL, tuple(-0.8 * env.l0 for _ in range(D)), rvel(r, 1000 * env.l0, D), 3.0, 2.0))
    env.min, env.max = box_for(ps, env) if ps else ((0.0,) * D, (1.0,) * D)
    s = Scenario("types_%s%d" % (kind, k), env, opts, wall=rand_wall(r, env, D)).new().put(ps).do(r.choice(["add", "add list", "add const"]))
    return s.do("auto 2", "fixed 1 %r" % (env.maxdt * 0.5))


def fam_pair(r, k, opts=None):
    """two simulations with different parameters and populations, stepped in turns, one of them growing"""
    D = dim_of(opts)
    a, b = rand_env(r), rand_env(r)
    pa = cloud(r, a, r.randint(5, 14), spread=1.1, speed=a.l0, mindist=0.6, dim=D)
    pb = cloud(r, b, r.randint(5, 14), spread=0.9, speed=b.l0, mindist=0.6, dim=D)
    a.min, a.max = box_for(pa, a)
    b.min, b.max = box_for(pb, b)
    s = Scenario("pair%d" % k, a, opts, wall=rand_wall(r, a, D)).new(0)
    s.do(b.line()).new(1)
    h = len(pa) // 2
    s.do("use 0").put(pa[:h]).do("add", "auto 1", "use 1").put(pb).do("add", "auto 1", "use 0", "auto 1").put(pa[h:]).do("add", "auto 1")
    return s.do("use 1", "fixed 1 %r" % (b.maxdt * 0.7), "use 0", "auto 1")


def fam_history(r, k, opts=None):
    """a longer history with particles leaving and others being added, checked at several moments"""
    D = dim_of(opts)
    env = rand_env(r, g=r.choice([9.8, 1.0]))
    ps = cloud(r, env, r.randint(14, 22), spread=1.2, speed=10 * env.l0, mindist=0.7, types=(0, 0, 0, 0, 1, 2), dim=D)
    env.min, env.max = box_for(ps, env, r.choice([0.1, 0.5]))
    s = Scenario("history%d" % k, env, opts, wall=rand_wall(r, env, D)).new()
    m = len(ps) * 2 // 3
    s.put(ps[:m]).do("add", "quiet %d" % r.choice([3, 17, 70]), "auto 1").put(ps[m:]).do("add", "auto 1", "quiet %d" % r.choice([5, 30, 150]), "auto 2")
    return s


def fam_marathon(r, k, opts=None):
    """very many steps, very many additions"""
    D = dim_of(opts)
    env = rand_env(r, g=r.choice([9.8, 0.1]), maxdt=0.001)
    s = Scenario("marathon%d" % k, env, opts, wall=rand_wall(r, env, D)).new()
    n = r.choice([6, 9, 130])
    ps = cloud(r, env, n, spread=1.2, speed=env.l0, mindist=0.7, types=(0, 0, 0, 1, 2), dim=D)
    env.min, env.max = box_for(ps, env, 3.0)
    for i, p in enumerate(ps):
        s.put([p]).do("add")
        if n < 100:
            s.do("quiet %d" % r.choice([1, 40, 300]))
    if n > 100:
        s.opts["focus"] = sorted(r.sample(range(1, n + 1), 16) + [n])
    return s.do("auto 1", "quiet %d" % (r.choice([30, 1100, 4200]) if n < 100 else 3), "auto 2")


def fam_pump(r, k, opts=None):
    """walls squeeze the fluid, let go, squeeze again (their motion turns with the clock): densities rise above the
    reference and come back"""
    D = dim_of(opts)
    env = rand_env(r, ratio=r.choice([2.1, 2.4]), g=r.choice([0.0, 0.1]), maxdt=0.01)
    ps = []
    m = 4
    for v in range((m + 2) * m ** (D - 1)):
        c = [v % (m + 2)] + [v // (m + 2) // m ** a % m for a in range(D - 1)]
        ty = WALL if c[0] in (0, m + 1) else FLUID
        ps.append(P(ty, jit(r, tuple(a * r.choice([0.95, 1.0]) * env.l0 for a in c), 0.05 * env.l0), rvel(r, 2 * env.l0, D), 0.0))
    r.shuffle(ps)
    env.min, env.max = box_for(ps, env)
    w = r.uniform(2, 6) * env.l0
    s = Scenario("pump%d" % k, env, opts, wall=((w,) + (0.0,) * (D - 1), (-w / 0.05,) + (0.0,) * (D - 1), (0.0,) * D)).new().put(ps).do("add")
    return s.do("fixed %d 0.01" % r.choice([4, 6]))


def with_twins(r, s, share=0.5):
    """before some steps, a new simulation makes the same step"""
    out, cur, nid = [], 0, 50
    for c in s.cmds:
        w = c.split()
        if w[0] in ("use", "new"):
            cur = int(w[1])
        if w[0] in ("auto", "fixed"):
            for i in range(int(w[1])):
                step = " ".join([w[0], "1"] + w[2:])
                if r.random() < share or (i == int(w[1]) - 1):
                    out.append("twin %d %d %s" % (nid, cur, step))
                    nid += 1
                out.append(step)
        else:
            out.append(c)
    s.cmds = out
    return s


def twinned(fam):
    def make(r, k, opts=None):
        s = with_twins(r, FAMILIES[fam](r, k, opts))
        s.env.eps = min(s.env.eps, 1e-10)
        s.name = "twin_" + s.name
        return s
    return make


def with_images(r, s, share=0.5):
    """before some steps, the image of the simulation makes the same step"""
    out, cur, nid = [], 0, 50
    D = s.opts["dim"]
    l0 = s.env.l0

    def image(step):
        fixed = step.startswith("fixed")
        kinds = ["all"] if r.random() < 0.3 else r.sample(["perm", "mirror", "shift"] + ["boost"] * fixed, r.choice([1, 1, 2]))
        use = lambda k: k in kinds or kinds == ["all"]
        mirror = [r.choice([-1.0, 1.0]) if use("mirror") and a < D - 1 else 1.0 for a in range(D)]
        if "mirror" in kinds and min(mirror) > 0:
            mirror[0] = -1.0
        shift = [r.choice([0.5, 3, -7.3, 40]) * l0 * r.uniform(0.9, 1.1) if use("shift") else 0.0 for a in range(D)]
        dt = float(step.split()[2]) if fixed else 1.0
        boost = [r.choice([1, -2, 0.3]) * r.uniform(0.1, 1) * r.choice([1.0, 0.1 / dt]) * l0 if use("boost") and fixed else 0.0 for a in range(D)]
        return "image %d %d %d %s %s" % (nid, cur, r.randrange(1, 1 << 30) if use("perm") else 0,
                                         " ".join(repr(float(v)) for v in mirror + shift + boost), step)
    for c in s.cmds:
        w = c.split()
        if w[0] in ("use", "new"):
            cur = int(w[1])
        if w[0] in ("auto", "fixed"):
            for i in range(int(w[1])):
                step = " ".join([w[0], "1"] + w[2:])
                if w[0] == "auto" and r.random() < 0.6:
                    step = "fixed 1 %r" % (s.env.maxdt * r.choice([1.0, 0.3]))
                for _ in range(2):
                    if r.random() < share or i == int(w[1]) - 1:
                        out.append(image(step))
                        nid += 1
                out.append(step)
        else:
            out.append(c)
    s.cmds = out
    return s


def imaged(fam):
    def make(r, k, opts=None):
        s = with_images(r, FAMILIES[fam](r, k, opts))
        s.env.eps = min(s.env.eps, 1e-10)
        s.name = "image_" + s.name
        return s
    return make


def with_racers(r, s, record=True):
    """before some steps the same step is made with other numbers of threads and other schedules"""
    out, cur, nid = [], 0, 50
    n = sum(1 for c in s.cmds if c.startswith("p "))
    for c in s.cmds:
        w = c.split()
        if w[0] in ("use", "new"):
            cur = int(w[1])
        if w[0] in ("auto", "fixed"):
            for i in range(int(w[1])):
                step = " ".join([w[0], "1"] + w[2:])
                for il in (0, 1, r.choice([0, 1])):
                    t = r.choice([2, 3, 4, 5, 7, 8, max(2, n), n + 3])
                    out.append("racer %d %d %d %d %d %s" % (nid, cur, t, il, r.randrange(1, 1 << 30), step))
                    nid += 1
                if record:
                    out.append("record %d" % (n + 1))
                out.append(step)
                if record:
                    out.append("record 0")
        else:
            out.append(c)
    s.cmds = out
    return s


def raced(fam):
    def make(r, k, opts=None):
        s = with_racers(r, FAMILIES[fam](r, k, opts), fam != "big")
        s.env.eps = min(s.env.eps, 1e-10)
        s.name = "race_" + s.name
        s.threads = 1
        return s
    return make


def fam_env(r, k, opts=None):
    """an environment alone: parameters over the whole range"""
    D = dim_of(opts)
    log = lambda a, b: 10 ** r.uniform(a, b)
    l0 = r.choice([log(-6, 4), 0.1, 1.0, 2.0 ** -4])
    env = Env(l0=l0, ratio=r.choice([r.uniform(1.01, 4.0 if D == 3 else 8.0), r.randint(2, 4), r.randint(2, 4) + r.choice([-1, 1]) * log(-6, -2), 2 ** 0.5 * 2, 5 ** 0.5]),
              courant=r.choice([log(-4, -0.1), 0.1, 0.5]), g=r.choice([9.8, log(-3, 5), 0.0 if r.random() < 0.5 else 1.0]), rho=log(-3, 5),
              nu=r.choice([0.0, log(-8, 3)]), maxdt=r.choice([log(-6, 1), log(-2, 4)]), sr=r.uniform(0.01, 1.2), c=log(-3, 4), eps=log(-12, -3))
    env.min = tuple(r.uniform(-5, 5) * l0 for _ in range(D))
    env.max = tuple(env.min[a] + r.uniform(0.1, 4.0) * env.nl for a in range(D))
    return Scenario("env%d" % k, env, opts).new()


FAMILIES = dict(env=fam_env, tank=fam_tank, cloud=fam_cloud, border=fam_border, exit=fam_exit, grow=fam_grow, lone=fam_lone,
                dense=fam_dense, close=fam_close, ties=fam_ties, crowd=fam_crowd, long=fam_long, big=fam_big,
                extreme=fam_extreme, types=fam_types, wide=fam_wide, marathon=fam_marathon, pair=fam_pair, history=fam_history, pump=fam_pump)
FAMILIES.update({"twin_" + f: twinned(f) for f in list(FAMILIES) if f not in ("big", "env")})
FAMILIES.update({"race_" + f: raced(f) for f in list(FAMILIES) if f not in ("env", "marathon") and "_" not in f})
FAMILIES.update({"image_" + f: imaged(f) for f in list(FAMILIES) if f not in ("big", "env", "marathon") and "_" not in f})


def make(seed, counts, opts=None, hooks=True):
    out = []
    for fam, n in counts.items():
        for k in range(n):
            r = random.Random("%s/%s/%d" % (seed, fam, k))
            s = FAMILIES[fam](r, k, opts)
            s.hooks = hooks
            s.threads = 1 if fam.startswith("race_") else random.Random("threads/%s/%s/%d" % (seed, fam, k)).choice([1, 2, 3, 4, 5, 7, 8])
            out.append(s)
    return out


if __name__ == "__main__":
    import sys
    counts = {f: int(n) for f, n in (a.split("=") for a in sys.argv[2:])}
    sys.stdout.write("".join(s.text() for s in make(sys.argv[1], counts)))
