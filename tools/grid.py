"""P15: the search grid.  TLC explores Grid.tla and the iterator GridWalk.tla, generates behaviours that are
replayed on the real class, and judges what the real class answered (GridTrace.tla)."""
import random
from lib import *
import trace as tracing


def explore(work, rep, pid, tier, seed):
    thorough = tier == "thorough"
    # the iterator, exhaustively
    for cells, most, live in ([("<<3, 3>>", 1, True), ("<<2, 4>>", 1, True), ("<<2, 2, 2>>", 1, False)] +
                              ([("<<3, 3>>", 2, False), ("<<4, 3>>", 1, True), ("<<2, 3, 2>>", 1, False)] if thorough else [])):
        r = tlc(work, "GridWalk", "SPECIFICATION WSpec\nCONSTANTS Cells <- TheCells MaxCount = %d\nINVARIANTS NothingStrange Complete\nPROPERTIES Forward%s\nCHECK_DEADLOCK FALSE\n"
                % (most, " Ends" if live else ""), module_consts=("TheCells == " + cells,))
        if not r.ok:
            raise CheckError("GridWalk: " + r.out[-2000:])
        rep.add(states=r.distinct, transitions=r.generated)
        rep.sample("iterator over every content of %s with up to %d items per block: %d states" % (cells, most, r.distinct))
    # the container, breadth first on tiny grids
    r = tlc(work, "GridGen", "SPECIFICATION GSpec\nCONSTANTS Shapes <- TheShapes Room = {1, 2} Items = {1, 2, 3} Offs = {0, 3} MaxOps = %d\n"
            "INVARIANTS Fits Placed Once Found Local\nVIEW View\nCHECK_DEADLOCK FALSE\n" % (6 if thorough else 5),
            module_consts=("TheShapes == {<<2, 2>>}",))
    if not r.ok:
        raise CheckError("GridGen: " + r.out[-2000:])
    rep.add(states=r.distinct, transitions=r.generated)


def behaviours(work, rep, dim, shapes, rooms, n, depth, seed):
    """random behaviours of GridGen"""
    r = tlc(work, "GridGen", "SPECIFICATION RSpec\nCONSTANTS Shapes <- TheShapes Room = {%s} Items <- TheItems Offs = {0, 1, 3} MaxOps = %d\n"
            "INVARIANTS Fits Placed Once Found Local Behaviour\nCHECK_DEADLOCK FALSE\n" % (", ".join(map(str, rooms)), depth),
            module_consts=("TheShapes == {%s}" % ", ".join(shapes), "TheItems == 0..60"), workers=1,
            extra=["-simulate", "num=%d" % n, "-depth", str(depth + 2), "-seed", str(seed)])
    res = []
    for line in r.out.splitlines():
        if line.startswith('"{'):
            res.append(json.loads(json.loads(line)))
    if not res:
        raise CheckError("no behaviours: " + r.out[-2000:])
    m = re.search(r"(\d+) states checked", r.out)
    rep.add(transitions=int(m.group(1)) if m else 0)
    return res


def concrete(r, dim, cells, cap):
    """a real grid with these cells and capacity: a line for the driver"""
    side = int(round(cap ** (1.0 / dim)))            # ceil(nl/l0) + 1
    dyadic = r.random() < 0.6
    nl = r.choice([1.0, 0.5, 2.0, 8.0]) if dyadic else r.choice([0.3, 0.252, 0.0288, 7.7])
    l0 = nl / (side - 1) * (1.0 if dyadic and side != 4 else 1.05)
    lo = [r.choice([0.0, -3.0, 16.0]) * nl for _ in range(dim)]
    part = [r.choice([0.0, 0.25, 0.5]) if dyadic else r.choice([0.1, 0.5]) for _ in range(dim)]
    hi = [lo[a] + max(0.0, cells[a] - 2 - part[a]) * nl if cells[a] > 2 else lo[a] for a in range(dim)]
    off = 0.0 if dyadic else nl / 8
    return "grid %s %d %r %r %r %s %s\n" % (" ".join(map(str, cells)), cap, nl, l0, off, " ".join(map(repr, lo)), " ".join(map(repr, hi)))


def text_of(r, dim, b):
    t = concrete(r, dim, b["cells"], b["cap"])
    for o in b["ops"]:
        if o["op"] == "store":
            t += "store %s %d\n" % (" ".join(map(str, o["x"])), o["id"])
        elif o["op"] == "walk":
            t += "walk %s\n" % " ".join(map(str, o["x"]))
        else:
            t += "clear\n"
    return t


def large(r, dim):
    """a long history on a larger grid"""
    cells = [r.randint(3, 9 if dim == 2 else 5) for _ in range(dim)]
    if r.random() < 0.3:    # a long one
        cells = [3] * dim
        cells[r.randrange(dim)] = r.choice([60, 130, 258] + [600] * (dim == 2))
    side = r.choice([2, 3, 3, 5])
    cap = side ** dim
    t = concrete(r, dim, cells, cap)
    nid = r.choice([0, 200, 65500, 999000])
    for _ in range(r.randint(2, 4)):
        fill = {}
        adds = []
        spot = [r.randint(0, c - 1) for c in cells]
        for _ in range(r.randint(5, 120)):
            q = [4 * v + r.choice([0, 1, 3]) for v in spot] if r.random() < 0.15 else [r.randint(-6, 4 * c + 5) for c in cells] if r.random() < 0.2 else [4 * min(c - 1, r.choice([0, c - 1, c - 2, c // 2, r.randint(0, min(c, 300) - 1)])) + r.choice([0, 1, 3]) for c in cells]
            b = tuple(v // 4 for v in q)
            inside = all(0 <= v < c for v, c in zip(b, cells))
            if inside and fill.get(b, 0) >= cap and r.random() < 0.7:
                continue
            if inside:
                fill[b] = fill.get(b, 0) + 1
            adds.append((q, nid))
            nid += 1
        if r.random() < 0.5:
            t += "many %d %s\n" % (len(adds), " ".join("%s %d" % (" ".join(map(str, q)), i) for q, i in adds))
        else:
            t += "".join("store %s %d\n" % (" ".join(map(str, q)), i) for q, i in adds)
        t += "counts\n"
        for _ in range(16):
            t += "walk %s\n" % " ".join(str(4 * r.choice([0, 1, c - 1, c // 2, r.randint(0, c - 1)]) + r.choice([0, 1, 3])) for c in cells)
        full = [b for b, n in fill.items() if n >= cap]
        for b in r.sample(full, min(3, len(full))):     # does not fit, and leaves everything as it is
            t += "store %s %d\n" % (" ".join(str(4 * v + 1) for v in b), nid)
            nid += 1
            t += "walk %s\n" % " ".join(str(4 * min(c - 1, max(0, v + r.choice([-1, 0, 1]))) + 2) for v, c in zip(b, cells))
        if full:
            t += "counts\n"
        t += "clear\n"
    t += "counts\nwalk %s\n" % " ".join("1" for _ in cells)
    return t


def replay(work, rep, pid, tier, seed):
    thorough = tier == "thorough"
    n = 400 if thorough else 60
    r = random.Random("grid/%s" % seed)
    for variant, dim, shapes, rooms in (("default", 2, ["<<2, 2>>", "<<3, 2>>", "<<2, 5>>", "<<4, 3>>", "<<3, 3>>"], [4, 9]),
                                        ("dim3", 3, ["<<2, 2, 2>>", "<<2, 4, 3>>", "<<3, 2, 2>>", "<<2, 3, 5>>"], [8])):
        exe = work.path("grid-" + variant)
        ok, err = compile_cpp(work, os.path.join(VERIF, "harness", "grid.cpp"), exe,
                              ["-O1", "-include", "memory", "-I" + variant_sources(work, variant), "-fopenmp"])
        if not ok:
            rep.skip(NoBuild(variant, err))
            continue
        texts = [text_of(r, dim, b) for b in behaviours(work, rep, dim, shapes, rooms, n, 45, seed)]
        texts += [large(r, dim) for _ in range(n // 3)]
        out = work.path("traces", "grid-%s.ndjson" % variant)
        run_driver(work, exe, texts, out)
        cfg = "SPECIFICATION TSpec\nINVARIANT NoViolation\nALIAS Show\nCHECK_DEADLOCK TRUE\n"
        res = tlc(work, "GridTrace", cfg, {"TRACE": out})
        rep.add(states=res.distinct, transitions=res.generated, traces_validated_against_impl=len(res.done),
                operations=sum(d[1] for d in res.done), walks=sum(d[2] for d in res.done), items_visited=sum(d[3] for d in res.done))
        rep.sample("%s: replayed %d histories of the grid, e.g. %s" % (variant, len(res.done), " / ".join(texts[0].split("\n")[:6])))
        if res.ok:
            continue
        if not (res.violated or res.deadlock):
            raise CheckError("GridTrace: " + res.out[-2000:])
        k = int(res.field("scenario"))
        what = res.field("bad") if res.violated else "event %s not allowed" % res.field("next")
        rep.violation("%s grid, history %d: %s" % (variant, k, what),
                      {"ops.txt": texts[k - 1], "trace.ndjson": "".join(split_scenarios(out).get(k, [])), "tlc.txt": res.out[-8000:]})
        return
