"""Runs of the application, judged against App.tla and Csv.tla by TLC (AppTrace.tla)."""
import json
import math
import random
import re
import struct
import scen
from lib import *

CFG = """SPECIFICATION TSpec
CONSTANT Props = {%s}
INVARIANTS NoViolation Classified Schedule
ALIAS Show
CHECK_DEADLOCK TRUE
"""
NAMES = {2: ["Type", "x", "z", "u", "w", "p", "n"], 3: ["Type", "x", "y", "z", "u", "v", "w", "p", "n"]}


def bits(v):
    b = struct.unpack("<Q", struct.pack("<d", float(v)))[0]
    return [struct.unpack("<i", struct.pack("<I", x))[0] for x in (b >> 32, b & 0xffffffff)]


# ---------------------------------------------------------------------------------------------------
# Inputs

class Case:
    """an input of the application"""

    def __init__(self, name):
        self.name = name
        self.settings = {}       # name -> text
        self.type = "csv"        # None: no attribute
        self.lines = []          # the particle table
        self.wellformed = True
        self.missing_file = False
        self.ok = True           # as the generator means it; the specification has its own opinion
        self.sensitive = False
        self.extra = []          # additional elements
        self.drop_table = False
        self.env = None
        self.frames_back = False
        self.blocked = []        # numbers of frames that cannot be written

    def xml(self, r):
        group = {"startTime": "condition", "endTime": "condition", "outputInterval": "condition", "eps": "condition"}
        cond = ['<%s value="%s" />' % (k, v) for k, v in self.settings.items() if group.get(k) == "condition"]
        env = ['<%s value="%s" />' % (k, v) for k, v in self.settings.items() if group.get(k) != "condition"]
        for e in self.extra:
            (cond if r.random() < 0.5 else env).append(e)
        r.shuffle(cond)
        r.shuffle(env)
        if r.random() < 0.5:
            cond.insert(r.randint(0, len(cond)), "<!-- conditions -->")
            env.insert(r.randint(0, len(env)), '<!-- <l_0 value="7" /> -->')
        parts = ["<condition>\n" + "\n".join(cond) + "\n</condition>", "<environment>\n" + "\n".join(env) + "\n</environment>"]
        if not self.drop_table:
            att = "" if self.type is None else ' type="%s"' % self.type
            parts.append("<particles%s>%s</particles>" % (att, "\n".join(self.lines)))
        r.shuffle(parts)
        t = '<?xml version="1.0" encoding="utf-8"?>\n<openmps>\n%s\n</openmps>\n' % "\n".join(parts)
        if not self.wellformed:
            t = r.choice([t[:int(len(t) * r.uniform(0.1, 0.9))], t.replace("</openmps>", "</openmp>"), t.replace("</condition>", ""), ""])
        return t


def number(r, v, digits=4):
    """a text for about this number"""
    s = r.choice(["%.{}g".format(digits), "%.{}e".format(digits - 1), "%.{}f".format(digits)]) % v
    if r.random() < 0.1 and not s.startswith("-"):
        s = "+" + s
    if r.random() < 0.1 and s.startswith("0.") and len(s) > 2:
        s = s[1:]
    return s


def table(r, ps, dim, plain=False):
    """lines of a particle table in random layout"""
    names = list(NAMES[dim])
    if not plain:
        r.shuffle(names)
    sp = (lambda: "") if plain else (lambda: r.choice(["", "", " ", "\t", "  "]))
    lines = [""]
    if not plain and r.random() < 0.3:
        lines += [r.choice(["", " ", "\t "])]
    lines.append(",".join(sp() + n + sp() for n in names))
    for ty, x, u, p, n in ps:
        v = dict(zip(NAMES[dim][1:1 + dim], x))
        v.update(zip(NAMES[dim][1 + dim:1 + 2 * dim], u))
        v.update(p=p, n=n)
        row = [str(ty) if m == "Type" else (v[m] if isinstance(v[m], str) else number(r, v[m])) for m in names]
        lines.append(",".join(sp() + c + sp() for c in row))
        if not plain and r.random() < 0.05:
            lines.append(r.choice(["", " \t"]))
    if r.random() < 0.8:
        lines.append("")
    return lines


def base(r, name, dim=2, spp=True, expl=False, n=None):
    """a valid input"""
    c = Case(name)
    l0 = r.choice([0.1, 0.05, 0.25])
    interval = r.choice([0.0078125, 0.015625, 0.03125, 0.0625])
    k = r.choice([1, 2, 3, 4, 7])
    courant = r.choice(["0.1", "0.2", "0.05"])
    ratio = r.choice(["2.1", "2.4", "3.1"])
    nl = float(ratio) * l0 * (1 + 2 * float(courant))
    start = r.choice([0, 0, interval * r.randint(1, 9), interval * (r.randint(1, 5) + r.choice([0.25, 0.5, 0.9375]))])
    frames = r.choice([0, 1, 2, 3, 3, 4])
    end = start + interval * (frames + r.choice([0, 0, -0.5, -0.0625]) if frames else 0)
    S = c.settings
    S["startTime"], S["endTime"], S["outputInterval"] = repr(start), repr(end), repr(interval)
    S["minStepCountPerOutput"] = str(k)
    if not expl:
        S["eps"] = r.choice(["1e-10", "1e-8", "1e-3", "0.05"])
    else:
        S["c"] = number(r, r.uniform(2, 8), 3)
    S["l_0"], S["courant"], S["r_eByl_0"] = repr(l0), courant, ratio
    S["g"] = r.choice(["9.8", "1.5", "0", "0.3"])
    S["rho"] = r.choice(["998.2", "1.25", "3"])
    S["nu"] = r.choice(["1e-6", "0.001", "0.02"])
    if not spp:
        S["surfaceRatio"] = r.choice(["0.97", "0.9", "0.6"])
    elif r.random() < 0.5:
        S["surfaceRatio"] = "0.97"
    env = scen.Env(l0=l0, courant=float(courant), ratio=float(ratio))
    ps = scen.cloud(r, env, n or r.randint(4, 16), spread=r.choice([0.9, 1.2, 1.6]), types=(0, 0, 0, 1, 1, 2, 3), speed=r.choice([0, 0.3, 3]) * l0 / interval / 4,
                    pmax=r.choice([0, 100.0]), mindist=0.6, dim=dim)
    lo, hi = scen.box_for(ps, env, 0.3)
    ax = ["X", "Z"] if dim == 2 else ["X", "Y", "Z"]
    for a in range(dim):
        S["min" + ax[a]], S["max" + ax[a]] = number(r, lo[a], 5), number(r, hi[a], 5)
    if dim == 2 and r.random() < 0.4:
        S["minY"], S["maxY"] = "-0.5", "7"
    if r.random() < 0.4:
        c.extra = ['<tooNearRatio value="0.5" />', "<unknown>3</unknown>"]
    # some leave the domain, upwards or downwards
    if r.random() < 0.5:
        i = r.randrange(len(ps))
        ty, x, u, p, q = ps[i]
        a = r.randrange(dim)
        x = list(x)
        x[a] = r.choice([lo[a] - 0.4 * nl, hi[a] + 4 * nl])
        ps[i] = (r.choice([0, 1, ty]), tuple(x), u, p, q)
    c.lines = table(r, ps, dim, plain=r.random() < 0.2)
    c.size = (l0, nl, dim)
    return c


def schedule(r, name, **o):
    """few particles, many frames"""
    c = base(r, name, n=r.choice([1, 2, 3]), **o)
    interval = float(c.settings["outputInterval"])
    start = r.choice([0, interval * r.randint(1, 99), interval * (r.randint(0, 30) + r.choice([0.25, 0.5, 0.96875, 0.03125]))])
    n = r.choice([0, 1, 2, 5, 9, 12])
    if r.random() < 0.25:
        return decimal(r, c)
    end = start + interval * (n - (r.choice([0, 0.25, 0.96875]) if n else 0))
    c.settings["startTime"], c.settings["endTime"] = repr(start), repr(end)
    c.settings["minStepCountPerOutput"] = r.choice(["1", "1", "2", "3", "5"])
    return c


def decimal(r, c):
    """times that are not exact in binary: whole numbers of intervals, as a resumed run has them; particles that hardly move, so that
    at most two intervals are made of equal steps"""
    interval = r.choice([1, 2, 3, 5, 7, 25]) * 10 ** -r.choice([1, 2, 3, 4])
    m, n = r.choice([0, 1, 3, 7, 11, r.randint(0, 99), r.randint(0, 9999)]), r.choice([-3, -1, 0, 1, 2, 2])
    S = c.settings
    S["outputInterval"] = repr(float("%.*f" % (8, interval)))
    S["startTime"], S["endTime"] = repr(round(m * interval, 8)), repr(round((m + n) * interval, 8))
    S["minStepCountPerOutput"], S["g"] = r.choice(["1", "2", "4"]), "0"
    dim = c.size[2]
    c.lines = table(r, [scen.P(0, tuple(float(S["min" + a]) + 0.3 * c.size[1] for a in (["X", "Z"] if dim == 2 else ["X", "Y", "Z"])), (0.0,) * dim, 0.0)], dim)
    return c


def unwritable(r, name, **o):
    """one or two frames cannot be written"""
    c = schedule(r, name, **o)
    S = {k: float(c.settings[k]) for k in ("startTime", "endTime", "outputInterval")}
    first, n = count(S["startTime"], S["outputInterval"]), count(S["endTime"] - S["startTime"], S["outputInterval"])
    c.blocked = sorted({first + r.choice([r.randint(0, n), r.randint(1, max(1, n)), n, n + 1]) for _ in range(r.choice([1, 1, 2]))})
    return c


def reads(r, name, **o):
    """particle tables in all kinds of layout, hardly any steps"""
    dim = o.get("dim", 2)
    c = base(r, name, n=2, **o)
    ps = []
    forms = ["0", "1", "-1.5", "+2", ".5", "3.", "1e-3", "1E2", "-2.5e+1", "0.10", "00.25", "-.125", "1e0", "12345.678", "0.000123456789", "-0"]
    for i in range(r.choice([0, 1, 2, 5, 9])):
        ps.append((r.choice(["0", "1", "2", "3", "+1", "02"]), [r.choice(forms) for _ in range(dim)], [r.choice(forms) for _ in range(dim)], r.choice(forms), r.choice(forms)))
    c.lines = table(r, ps, dim)
    if r.random() < 0.5:
        c.settings["endTime"] = c.settings["startTime"]
    else:
        c.settings["endTime"] = repr(float(c.settings["startTime"]) + float(c.settings["outputInterval"]))
    return c


def sensitive(r, name, dim=2, spp=True, expl=False):
    """every setting matters for the frames: domain corners disable particles, the tolerance is coarse, ..."""
    c = base(r, name, dim, spp, expl, n=r.randint(10, 16))
    S = c.settings
    l0, nl, _ = c.size
    interval = float(S["outputInterval"])
    S["startTime"] = "0"
    S["endTime"] = repr(2 * interval)
    S["nu"], S["g"] = r.choice(["0.01", "0.02"]), r.choice(["9.8", "3"])
    S["courant"] = r.choice(["0.1", "0.2"])
    if not expl:
        S["eps"] = r.choice(["0.05", "0.2"])
    c.sensitive = True
    # fresh particles around, some beyond every side of the domain
    env = scen.Env(l0=l0, courant=float(S["courant"]), ratio=float(S["r_eByl_0"]))
    nl = env.nl
    ps = scen.cloud(r, env, r.randint(9, 15), spread=1.0, types=(0, 0, 0, 0, 1), speed=0.5 * l0 / interval, pmax=100.0, mindist=0.6, dim=dim)
    lo, hi = scen.box_for(ps, env, 0.2)
    ax = ["X", "Z"] if dim == 2 else ["X", "Y", "Z"]
    for a in range(dim):
        S["min" + ax[a]], S["max" + ax[a]] = number(r, lo[a], 5), number(r, hi[a], 5)
        mid = [0.5 * (p + q) for p, q in zip(lo, hi)]
        for side in (lo[a] - 0.3 * nl, lo[a] - 0.02 * l0, hi[a] + 1.2 * nl, hi[a] + 3.2 * nl):
            x = list(mid)
            x[a] = side
            ps.append(scen.P(0, x, scen.rvel(r, 0.2, dim)))
    r.shuffle(ps)
    c.lines = table(r, ps, dim)
    return c


def failing(r, name, dim=2, spp=True, expl=False):
    """a step fails after some frames: particles that meet with an unreachable tolerance, or too many in one block"""
    c = base(r, name, dim, spp, expl, n=3)
    S = c.settings
    S["l_0"], S["courant"], S["r_eByl_0"], S["g"] = "0.1", "0.1", "2.1", r.choice(["0", "0.5"])
    env = scen.Env(l0=0.1, courant=0.1, ratio=2.1)
    interval = 0.0625
    S["outputInterval"], S["minStepCountPerOutput"] = repr(interval), r.choice(["1", "2", "3"])
    start = r.choice([0, 0, interval * 3, interval * 2.5])
    S["startTime"], S["endTime"] = repr(start), repr(start + interval * r.choice([3, 5, 6]))
    how = "crowd" if expl else r.choice(["crowd", "solver", "solver", "pass"])
    if how == "solver":
        # particles out of reach of each other that meet later; no tolerance is small enough
        S["eps"] = "1e-30"
        n = r.choice([5, 6, 7])
        R = r.choice([1.05, 1.2, 1.5]) * env.re / (2 * math.sin(math.pi / n))
        v = r.choice([0.5, 1.0])
        ps = []
        for i in range(n):
            e = (math.cos(2 * math.pi * i / n), math.sin(2 * math.pi * i / n)) + ((0.0,) if dim == 3 else ())
            ps.append(scen.P(0, scen.jit(r, [0.5 + R * q for q in e], 0.004), scen.jit(r, [-v * q for q in e], 0.05)))
        lo, hi = (-0.5,) * dim, (1.5,) * dim
    elif how == "pass":
        # the same, but they pass each other: the steps could be completed again later
        S["eps"], S["courant"], S["g"], S["nu"] = "1e-30", "0.5", "0", "0"
        interval = 0.046875
        S["outputInterval"], S["minStepCountPerOutput"] = repr(interval), "1"
        start = interval * r.choice([0, 2])
        S["startTime"], S["endTime"] = repr(start), repr(start + interval * 18)
        n = r.choice([6, 7])
        R = r.choice([0.28, 0.33])
        ps = []
        for i in range(n):
            a = 2 * math.pi * i / n + 0.01 * i * i
            e = (math.cos(a), math.sin(a)) + ((0.0,) if dim == 3 else ())
            ps.append(scen.P(0, [0.5 + R * q for q in e], [-q for q in e]))
        lo, hi = (-1.5,) * dim, (2.5,) * dim
    else:
        # a block that is full already, and particles on their way into it
        if not expl:
            S["eps"] = "1e-5"
        S["g"], S["nu"] = "0", "0"
        nl = env.nl
        cap = (math.ceil(nl / 0.1) + 1) ** dim
        lo, hi = (0.0,) * dim, (4 * nl,) * dim
        ps = []
        while len(ps) < cap:
            x = tuple(nl * (2 + r.uniform(0.45, 0.99)) for _ in range(dim))
            if all(math.dist(x, q[1]) > 0.01 for q in ps):
                ps.append(scen.P(2, x))
        v = r.choice([0.7, 1.0])
        for i in range(3):
            x = (nl * (2 - r.uniform(0.1, 1.2)),) + tuple(nl * (2 + 0.2 * i + r.uniform(0, 0.1)) for _ in range(dim - 1))
            ps.insert(r.randrange(len(ps)), scen.P(0, x, (v,) + (0.0,) * (dim - 1)))
    ax = ["X", "Z"] if dim == 2 else ["X", "Y", "Z"]
    for a in range(dim):
        S["min" + ax[a]], S["max" + ax[a]] = repr(lo[a]), repr(hi[a])
    c.lines = table(r, ps, dim, plain=True)
    return c


def huge(r, name, dim=2, spp=True, expl=False):
    """very many steps per output; the first one fails, so that none has to be made"""
    if expl:
        return sensitive(r, name, dim, spp, expl)
    c = failing(r, name, dim, spp, expl)
    S = c.settings
    S["l_0"], S["courant"], S["r_eByl_0"], S["nu"], S["eps"] = "0.1", r.choice(["0.1", "0.2"]), "2.4", "0", "1e-30"
    S["startTime"], S["endTime"], S["outputInterval"] = "0", repr(r.choice([1, 3])), repr(r.choice([1.0, 0.5]))
    S["minStepCountPerOutput"] = r.choice(["256", "40000", "70000", "1000003", "5000000000"])
    ax = ["X", "Z"] if dim == 2 else ["X", "Y", "Z"]
    for a in ax:
        S["min" + a], S["max" + a] = "-1", "1.5"
    ps = []
    for i in range(12):
        x = [0.09 * (i % 3), 0.1 * (i // 6)] if dim == 2 else [0.09 * (i % 3), 0.0, 0.1 * (i // 6)]
        x[1 if dim == 3 else 0] += 0.05 if dim == 3 else 0.0
        x[-1] += 0.11 * (i // 3 % 2)
        x = scen.jit(r, x, 0.01)
        if all(math.dist(x, q[1]) > 0.06 for q in ps):
            ps.append(scen.P(0, x, scen.rvel(r, 1.0, dim), r.uniform(0, 100)))
    c.lines = table(r, ps, dim, plain=True)
    return c


NO_NUMBER = ["abc", "-", "+", "", "x1", "--1", "e5", ".", "'1'", "*"]


def needed(dim=2, spp=True, expl=False):
    n = ["startTime", "endTime", "outputInterval", "l_0", "minStepCountPerOutput", "courant", "g", "rho", "nu", "r_eByl_0", "minX", "minZ", "maxX", "maxZ"]
    return n + (["minY", "maxY"] if dim == 3 else []) + ([] if spp else ["surfaceRatio"]) + (["c"] if expl else ["eps"])


def rejected(r, name, dim=2, spp=True, expl=False, kind=None):
    """an input with one defect"""
    c = base(r, name, dim, spp, expl, n=r.choice([1, 3, 4]))
    c.ok = False
    S = c.settings
    kinds = ["setting:" + s for s in needed(dim, spp, expl)]
    kinds += ["head-missing", "head-unknown", "short", "nonumber", "notype", "othertype", "notable", "malformed", "nofile", "empty", "blank", "typename"]
    kind = kind or r.choice(kinds)
    c.name = name + "-" + kind
    rows = [i for i, t in enumerate(c.lines) if t.strip()]
    if kind.startswith("setting:"):
        s = kind[8:]
        del S[s]
        if r.random() < 0.5:
            c.extra = ['<%s val="1" />' % s] if r.random() < 0.5 else ['<%s2 value="1" />' % s]
    elif kind == "head-missing":
        items = c.lines[rows[0]].split(",")
        k = r.randrange(len(items))
        for i in rows:
            it = c.lines[i].split(",")
            del it[k]
            c.lines[i] = ",".join(it)
    elif kind == "head-unknown":
        k = r.randrange(len(NAMES[dim]))
        it = c.lines[rows[0]].split(",")
        mode = r.random()
        if mode < 0.4:
            it[k] = r.choice(["foo", "X", "type", "xx", "\"x\"", ""])
        else:
            it.insert(k, r.choice(["m", "foo", "id", "", "y" if dim == 2 else "q"]))
            for i in rows[1:]:
                w = c.lines[i].split(",")
                w.insert(k, "1")
                c.lines[i] = ",".join(w)
        c.lines[rows[0]] = ",".join(it)
    elif kind == "short":
        i = r.choice(rows[1:])
        it = c.lines[i].split(",")
        c.lines[i] = ",".join(it[:r.choice([1, len(it) - 1, len(it) - 1, len(it) - 2])])
    elif kind in ("nonumber", "typename"):
        i = r.choice(rows[1:])
        it = c.lines[i].split(",")
        names = [n.strip() for n in c.lines[rows[0]].split(",")]
        k = names.index("Type") if kind == "typename" else r.randrange(len(it))
        it[k] = r.choice(["fluid", "Wall", "-", ""]) if kind == "typename" else r.choice(NO_NUMBER)
        c.lines[i] = ",".join(it)
    elif kind == "notype":
        c.type = None
    elif kind == "othertype":
        c.type = r.choice(["bin", "CSV", "", "csv2", "cs", " csv"])
    elif kind == "notable":
        c.drop_table = True
        c.type = None
    elif kind == "malformed":
        c.wellformed = False
    elif kind == "nofile":
        c.wellformed = False
        c.missing_file = True
    elif kind == "empty":
        c.lines = r.choice([[""], [], ["", ""]])
    elif kind == "blank":
        c.lines = [r.choice([" ", "\t", ""]) for _ in range(r.randint(1, 4))]
    return c


# ---------------------------------------------------------------------------------------------------
# Running

def build(work, variant="default", ndebug=False):
    """the application; returns (path, traced?)"""
    tag = "app-" + variant + ("-nd" if ndebug else "")
    for t, f in ((True, "-t"), (False, "-p")):
        if os.path.exists(os.path.join(work.dir, tag + f)):
            return os.path.join(work.dir, tag + f), t
    src = variant_sources(work, variant)
    mains = [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith(".cpp")]
    flags = ["-O1", "-I" + src] + VARIANTS[variant][1] + (["-DNDEBUG"] if ndebug else [])
    out = os.path.join(work.dir, tag)
    err = ""
    if not ndebug:
        ok, err = compile_cpp(work, mains[0], out + "-t", flags + ["-DOPENMPS_TRACE", "-include", os.path.join(VERIF, "harness", "apptrace.hpp")] + mains[1:])
        if ok:
            return out + "-t", True
    ok, err2 = compile_cpp(work, mains[0], out + "-p", flags + mains[1:])
    if not ok:
        raise NoBuild(variant, err2)
    return out + "-p", False


LINE = re.compile(r"^#(\d+): t=\s*(\S+)\s*\(\s*(\d+)\),\s*(\d+) particles, @")


def observe(work, exe, case, seed, threads=1, timeout=60):
    """run the application on a case in a directory of its own"""
    r = random.Random("xml/%s" % seed)
    d = tempfile.mkdtemp(prefix="run", dir=work.dir)
    text = case.xml(r)
    if not case.missing_file:
        with open(os.path.join(d, "in.xml"), "w") as f:
            f.write(text)
    envf = os.path.join(d, "env.json")
    if case.blocked:
        os.mkdir(os.path.join(d, "result"))
        for no in case.blocked:     # a directory is in the way, or the disk is full
            fn = os.path.join(d, "result", "particles_%05d.csv" % no)
            if r.random() < 0.5:
                os.mkdir(fn)
            else:
                os.symlink("/dev/full", fn)
    rc, o, e = sh([exe, "in.xml"], timeout, {"OMP_NUM_THREADS": str(threads), "OPENMPS_ENV_OUT": envf}, cwd=d)
    if rc == "timeout":
        rc = 124
    if rc < 0:
        rc = 128 - rc
    out = []
    for line in o.split("\n"):
        m = LINE.match(line)
        if m and re.fullmatch(r"-?[\d.]+(e[-+]?\d+)?", m.group(2)):
            out.append(dict(kind="progress", no=int(m.group(1)), iter=int(m.group(3)), t=bits(m.group(2)), count=int(m.group(4))))
        elif line == "!!!!ERROR!!!!":
            out.append(dict(kind="error"))
        elif line == "finished":
            out.append(dict(kind="finished"))
        elif re.fullmatch(r"\d+ particles", line):
            out.append(dict(kind="particles", n=int(line.split()[0])))
        elif line:
            out.append(dict(kind="other", text=line))
    frames = []
    res = os.path.join(d, "result")
    files = sorted(os.listdir(res))[:200] if os.path.isdir(res) else []     # no run here has that many
    for fn in files:
        m = re.search(r"(\d+)", fn)
        no = int(m.group(1)) if m else -1
        if no in case.blocked and (os.path.isdir(os.path.join(res, fn)) or os.path.islink(os.path.join(res, fn))):
            continue
        raw = open(os.path.join(res, fn), errors="replace").read().split("\n")
        rows = []
        for line in raw[1:]:
            if not line.strip():
                continue
            try:
                rows.append([bits(t) for t in line.split(",")])
            except ValueError:
                rows.append([])
        frames.append(dict(no=no, named=fn == "particles_%05d.csv" % no, head=raw[0], rows=rows,
                           chars=[list(x) for x in raw] if case.frames_back and no == max((f["no"] for f in frames), default=no) else [], raw=raw))
    if case.frames_back:
        for f in frames[:-1]:
            f["chars"] = []
    env = []
    if os.path.exists(envf):
        try:
            env = [json.loads(open(envf).read())]
        except ValueError:
            pass
    shutil.rmtree(d, ignore_errors=True)
    return dict(rc=rc, out=out, frames=frames, env=env, stderr=e[-500:], xml=text)


def parse_table(case, dim):
    """our reading of the table, to feed the reference (the specification compares it with its own)"""
    rows = [[t.replace(" ", "").replace("\t", "") for t in line.split(",")] for line in case.lines if line.strip()]
    col = {n: i for i, n in enumerate(rows[0])}
    N = NAMES[dim]
    return [(int(w[col["Type"]]), [float(w[col[n]]) for n in N[1:1 + dim]], [float(w[col[n]]) for n in N[1 + dim:1 + 2 * dim]], float(w[col["p"]]), float(w[col["n"]]))
            for w in rows[1:]]


class RefUnavailable(Exception):
    pass


def count(t, interval):
    """how many intervals begin before t"""
    q = t / interval
    return 0 if t <= 0 else math.ceil(q) - (q - (math.ceil(q) - 1) <= 1e-9 * math.ceil(q))


def reference_text(case, dim, opts):
    S = {k: float(v) for k, v in case.settings.items()}
    ax = ["X", "Z"] if dim == 2 else ["X", "Y", "Z"]
    interval = S["outputInterval"]
    env = scen.Env(maxdt=interval / S["minStepCountPerOutput"], courant=S["courant"], g=S["g"], rho=S["rho"], nu=S["nu"], ratio=S["r_eByl_0"], l0=S["l_0"],
                   eps=S.get("eps", 1e-10), sr=S.get("surfaceRatio", 0.95), c=S.get("c", 10.0), min=tuple(S["min" + a] for a in ax), max=tuple(S["max" + a] for a in ax))
    n = count(S["endTime"] - S["startTime"], interval)
    s = scen.Scenario(case.name, env, opts, hooks=False)
    s.threads = 1
    s.new().put(parse_table(case, dim)).do("add")
    case.until = n * interval
    if n > 0:
        s.do("until %r 400" % (n * interval))
    return s.text()


def references(work, cases, variant, opts, dim):
    """what the library does with the inputs of the cases; None where that is of no use"""
    exe, _ = build_step(work, variant, hooks=False)
    texts = [reference_text(c, dim, opts) for c in cases]
    tr = work.path("traces", "ref-%s-%d.ndjson" % (variant, len(os.listdir(work.dir))))
    run_driver(work, exe, texts, tr, {"OMP_NUM_THREADS": "1"}, timeout=120)
    refs = []
    by = split_scenarios(tr)
    for i, c in enumerate(cases):
        ev = [json.loads(x) for x in by.get(i + 1, [])]
        ref = dict(raw=None, states=[], threw="")
        cols = lambda e: {k: e[k] for k in ("ty", "x", "u", "p", "n", "t")}
        for e in ev:
            if e["ev"] == "new":
                ref["raw"] = {k: e["raw"][k] for k in ("maxdt", "courant", "g", "rho", "nu", "ratio", "l0", "min", "max")}
            elif e["ev"] == "added":
                ref["states"].append(cols(e))
            elif e["ev"] == "end":
                ref["states"].append(cols(e))
            elif e["ev"] == "throw":
                ref["threw"] = e["what"] or "?"
            elif e["ev"] == "crash":
                ref = None
                break
        if ref is None or ref["raw"] is None or not ref["states"]:
            refs.append(None)
        elif len(ref["states"]) > 399:
            refs.append(None)
        else:
            refs.append(ref)
    return refs


def record(case, dim, opts, obs, ref):
    return dict(dim=dim, spp=opts.get("spp", True), expl=opts.get("expl", False), ok=case.ok, wellFormed=case.wellformed, type=case.type or "",
                settings=case.settings, blocked=case.blocked, table=[list(x) for x in case.lines], sensitive=case.sensitive,
                ref=ref or dict(raw={}, states=[], threw=""), env=obs["env"], out=obs["out"],
                frames=[{k: f[k] for k in ("no", "named", "head", "rows", "chars")} for f in obs["frames"]], rc=obs["rc"])


def runs(make, quick, thorough, variant="default", ndebug=False):
    """part of a check: run cases and let TLC judge them.  make(random, number, options) -> Case"""
    def part(work, rep, pid, tier, seed):
        vo = VARIANTS[variant][2]
        dim, opts = vo.get("dim", 2), dict(scen.DEFAULT_OPTS, **vo)
        o = dict(dim=dim, spp=opts["spp"], expl=opts["expl"])
        count = thorough if tier == "thorough" else quick
        exe, traced = build(work, variant, ndebug)
        if not traced and not ndebug:
            rep.notes.append("the application does not compile with the trace points; its parameters are judged from the frames only")
        for chunk in range(0, count, 120):
            cases = [make(random.Random("%s/%s/%s/%d" % (pid, variant, seed, i)), i, o) for i in range(chunk, min(count, chunk + 120))]
            judge_cases(work, rep, pid, variant, cases, exe, dim, opts, seed)
            if rep.violations:
                return
    return part


def judge_cases(work, rep, pid, variant, cases, exe, dim, opts, seed):
    good = [c for c in cases if c.ok]
    refs = dict(zip(map(id, good), references(work, good, variant, opts, dim) if good else []))
    endless = []

    def look(ic):
        if len(endless) >= 2:       # enough of them
            return None
        ob = observe(work, exe, ic[1], "%s/%d" % (seed, ic[0]))
        if ob["rc"] == 124:
            endless.append(ic[1].name)
        return ob
    with cf.ThreadPoolExecutor(CORES) as ex:
        obs = list(ex.map(look, enumerate(cases)))
    recs, meta = [], []
    for c, ob in zip(cases, obs):
        if ob is None:
            continue
        ref = refs.get(id(c))
        if c.ok and ref is None:
            rep.add(runs_without_reference=1)
            continue
        recs.append(json.dumps(record(c, dim, opts, ob, ref), separators=(",", ":")))
        meta.append((c, ob))
    if not recs:
        raise CheckError("no run of the application could be judged")
    tr = work.path("traces", "app-%d.ndjson" % len(os.listdir(work.dir)))
    with open(tr, "w") as f:
        f.write("\n".join(recs) + "\n")
    cfg = CFG % ('"%s"' % pid)
    res = tlc(work, "AppTrace", cfg, {"TRACE": tr})
    rep.add(states=res.distinct, transitions=res.generated, traces_validated_against_impl=len(res.done),
            steps=sum(d[1] for d in res.done), frames=sum(d[2] for d in res.done))
    rep.sample(*["application run %s (%s): %d steps, %d frames" % (meta[d[0] - 1][0].name, variant, d[1], d[2]) for d in res.done[:4] if 0 < d[0] <= len(meta)])
    if res.ok:
        if len(res.done) < len(recs):
            raise CheckError("only %d of %d runs were judged: %s" % (len(res.done), len(recs), res.out[-1500:]))
        return
    k = int(res.field("run") or 0)
    if not (res.violated or res.deadlock) or k < 1:
        raise CheckError("TLC failed on the runs of the application: " + res.out[-3000:])
    c, ob = meta[k - 1]
    what = res.field("bad") if res.violated and "NoViolation" in res.violated else ("%s; %s" % (res.violated, res.last))
    if '"harness"' in what or (res.violated and "NoViolation" not in res.violated) or (res.deadlock and not res.violated):
        raise CheckError("the harness misjudges run %s: %s" % (c.name, what[-1500:]))
    msg = "%s, run %s of the application (step %s, frame %s): %s" % (variant, c.name, res.field("step"), res.field("frame"), what)
    rep.violation(msg, {"in.xml": ob["xml"], "run.ndjson": recs[k - 1] + "\n", "tlc.txt": res.out[-20000:], "stdout.json": json.dumps(ob["out"]), "stderr.txt": ob["stderr"],
                        "how.txt": "run the application (variant %s) on in.xml; TRACE=run.ndjson tlc with spec/AppTrace.tla rejects the recorded run.\n%s\n" % (variant, msg)})


EXPLORE = """SPECIFICATION MSpec
CONSTANTS
Starts = {%s}
Ends = {%s}
Gaps = {%s}
Dts = {%s}
Blocked = {%s}
INVARIANTS Consecutive OnTime Prompt Initial Nothing Complete NotBeyond Partial Unwritten
PROPERTIES Ends1 Growing
CHECK_DEADLOCK FALSE
"""


def explore(work, rep, pid, tier, seed):
    """the promises of the schedule hold for the machine of App.tla: all schedules of a small world, every sequence of time steps, failures anywhere"""
    j = lambda v: ", ".join(map(str, v))
    cfg = EXPLORE % ((j(range(5)), j([0, 3, 4, 6, 7, 9]), j([1, 2, 3]), j([1, 2, 4]), j([0, 2, 3])) if tier != "thorough" else
                     (j(range(8)), j(range(0, 15)), j([1, 2, 3, 5]), j([1, 2, 3, 4, 7]), j([0, 1, 2, 4, 7])))
    res = tlc(work, "AppMC", cfg)
    if not res.ok:
        raise CheckError("the specification of the application breaks its own promises: " + res.out[-3000:])
    rep.add(states=res.distinct, transitions=res.generated)
    rep.sample("App.tla explored: %d distinct states" % res.distinct)


def roundtrip(quick, thorough, variant="default"):
    """frames written by one run are the input of another"""
    def part(work, rep, pid, tier, seed):
        vo = VARIANTS[variant][2]
        dim, opts = vo.get("dim", 2), dict(scen.DEFAULT_OPTS, **vo)
        o = dict(dim=dim, spp=opts["spp"], expl=opts["expl"])
        exe, _ = build(work, variant)
        cases = []
        for i in range(thorough if tier == "thorough" else quick):
            r = random.Random("%s/%s/%s/back%d" % (pid, variant, seed, i))
            c = base(r, "back%d" % i, **o)
            ob = observe(work, exe, c, "%s/b%d" % (seed, i))
            if not ob["frames"]:
                continue
            c.lines = r.choice(ob["frames"])["raw"]
            if r.random() < 0.5:
                c.lines = [""] + c.lines
            c.frames_back = r.random() < 0.5
            cases.append(c)
        if cases:
            try:
                for c in cases:
                    parse_table(c, dim)
            except (ValueError, KeyError, IndexError):
                # our own reader does not understand the frame; the specification says why (chars of the frame)
                return
            judge_cases(work, rep, pid, variant, cases, exe, dim, opts, seed)
    return part
