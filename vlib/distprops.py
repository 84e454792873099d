"""Distances and quantisation (C16): harness mode dist, specification Distance."""
import itertools
from . import core
from .seqprops import pick

DIMS = list(range(1, 36)) + [47, 48, 49, 62, 63, 64, 65, 66, 80, 95, 96, 97, 98, 127, 128, 129, 130]


def vectors(rng, n, dim, top):
    """Vectors of integers; among them zero, parallel, opposite, orthogonal, sparse ones, extremes."""
    def dense():
        return [rng.randint(-top, top) for _ in range(dim)]

    def sparse(k):
        v = [0] * dim
        for i in rng.sample(range(dim), min(dim, k)):
            v[i] = rng.choice([-top, top, 1, -1, rng.randint(-top, top)])
        return v
    out = [[0] * dim]
    base = dense()
    out += [base, [-x for x in base]]
    small = [rng.randint(-top // 3, top // 3) for _ in range(dim)]
    out += [small, [3 * x for x in small], [-2 * x for x in small]]
    edge = [i for i in (0, 1, 31, 32, 63, 64, dim - 2, dim - 1, dim - dim % 32) if 0 <= i < dim]
    for i in rng.sample(edge, min(2, len(edge))):
        v = [0] * dim
        v[i] = rng.choice([-top, top, 1])
        out.append(v)
        w = list(v)
        w[rng.randrange(dim)] += 1
        out.append(w)
    out += [[top] * dim, [(-1) ** i * top for i in range(dim)]]
    while len(out) < n:
        out.append(rng.choice([dense, lambda: sparse(1), lambda: sparse(2), lambda: sparse(5)])())
    rng.shuffle(out)
    return out


def c16(c):
    rng = c.rng
    k = itertools.count()
    scs = []
    dims = DIMS * pick(2, 5) + [200, 256, 257, 300, 512, 1000, 1100, 2100, pick(1500, 5000)] + [-2, -3, -7]
    for dim in dims:
        n = pick(12, 16) if dim > 0 else pick(70, 150)     # large batches of short vectors
        dim = abs(dim)
        if dim > 300:
            n = 8
        most = int((1.9e9 / dim) ** 0.5)        # squared norms in 32 bits
        top = min(most, rng.choice([5, 100, 2000]))
        scs.append({"id": "a%d" % next(k), "kind": "ang", "rows": vectors(rng, n, dim, top), "dim": dim, "scale": 2.0 ** rng.choice([0, 0, -20, 30, -3, 64, 100, -60, -75, -110, -149])})
        top = rng.choice([5, 100, 127, 128, 1000])
        scs.append({"id": "i%d" % next(k), "kind": "int", "rows": vectors(rng, n, dim, top), "dim": dim, "scale": 2.0 ** rng.choice([0, 0, -20, 30, -3, 64, 100, -60, -75, -110, -149])})
        raw = [[max(-128, min(127, x)) for x in v] for v in vectors(rng, n, dim, rng.choice([3, 127]))]
        scs.append({"id": "r%d" % next(k), "kind": "raw", "rows": raw, "dim": dim})
        if rng.random() < pick(0.6, 1):
            ne = rng.randint(2, 12)
            emb = vectors(rng, ne, dim, min(most // 6, rng.choice([5, 300])))[:ne]
            rows = [[], [0], [1], [0, 0], [1, 0], [0, 1]] + [[rng.randrange(ne) for _ in range(rng.choice([1, 2, 3, 6]))] for _ in range(5)]
            scs.append({"id": "s%d" % next(k), "kind": "sum", "rows": rows, "emb": emb, "dim": dim})
        p = [[rng.choice([rng.gauss(0, 1), rng.uniform(-1, 1), rng.uniform(-1, 1) * 10 ** rng.randint(-9, 9)]) for _ in range(min(dim, 8))] for _ in range(12)]
        scs.append({"id": "p%d" % next(k), "kind": "peaks", "rows": p, "dim": dim})
    by = {s["id"]: s for s in scs}
    ev = c.harness("dist", scs)
    hs = [{"sc": i, "kind": by[i]["kind"], "dim": by[i]["dim"], "emb": by[i].get("emb", []),
           "rows": by[i]["rows"] if by[i]["kind"] != "peaks" else [], "events": e} for i, e in ev.items()]
    for h in hs:
        for e in h["events"]:
            if e["ev"] in ("dists", "path"):
                c.cnt["evaluations"] += len(e["bits"]) ** 2
                ps, name = c.notes.setdefault("paths", {}), e.get("path", "element to element")
                ps[name] = ps.get(name, 0) + 1
    for h in hs[:2]:
        c.sample({"kind": h["kind"], "dim": h["dim"], "scale": by[h["sc"]].get("scale"), "rows": h["rows"][:3], "distances": [x["D"][0] for x in h["events"] if x["ev"] == "dists"]})
    c.validate("Distance", hs, mode="dist", scenarios=by)
