"""Scenarios for the sequential harness mode and their translation to trace-specification input."""
import json, os, re
from fractions import Fraction
from . import core

UNIT = 1048576.0


def table(rng, n, style="metric", zeros=(), dups=()):
    """A distance table without ties (entries in units of 2^-20): every pair has its own distance.
    ("random": or differ in the last bits only.)  zeros: rows with a non-zero distance to themselves; dups: groups of rows within the duplicate threshold."""
    if style == "random":
        m = n * (n + 1) // 2
        if rng.random() < 0.2:      # distances that differ by units in the last place only
            vals = [UNIT / 2 + v / 16 for v in rng.sample(range(2 * m), m)]
        else:
            vals = rng.sample(range(400, 400 + 40 * n * n + 100), m)
        it = iter(vals)
        D = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                D[i][j] = D[j][i] = next(it)
    else:
        dim = rng.choice([1, 2, 2, 3])
        if style == "cluster":
            cs = [[rng.random() for _ in range(dim)] for _ in range(max(1, n // 4))]
            pts = [[x + rng.gauss(0, 0.03) for x in rng.choice(cs)] for _ in range(n)]
        else:
            pts = [[rng.random() for _ in range(dim)] for _ in range(n)]
        D = [[0] * n for _ in range(n)]
        far = sorted((int(1000000 * sum((a - b) ** 2 for a, b in zip(pts[i], pts[j]))) + 40, rng.random(), i, j) for i in range(n) for j in range(i))
        last = 0
        for d, _, i, j in far:
            last = max(d, last + 1)
            D[i][j] = D[j][i] = last
    # duplicates: tiny distances, all different (fractions of a unit)
    k = 0
    for g in dups:
        for a in range(len(g)):
            for b in range(a):
                k += 1
                D[g[a]][g[b]] = D[g[b]][g[a]] = 11.0 * k / (len(g) * len(g) * len(dups) + 1) + 1 / 64
    for z in zeros:
        D[z][z] = 900000 + z
    return D


def tied(rng, n, levels):
    """A symmetric table with equal distances: few different values, or a line or grid of points."""
    how = rng.choice(["levels", "line", "grid"])
    vals = [1000 * (k + 1) for k in range(levels)]
    pts = [(rng.randrange(levels), rng.randrange(levels) if how == "grid" else 0) for _ in range(n)]
    D = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            if how == "levels":
                d = rng.choice(vals)
            else:
                d = 1000 * ((pts[i][0] - pts[j][0]) ** 2 + (pts[i][1] - pts[j][1]) ** 2) or 500
            D[i][j] = D[j][i] = d
    return D


def vectors(rng, n, dim, kind, zeros=0, dups=0, scale=1.0):
    """coordinates for dense vectors"""
    rows = []
    for i in range(n):
        if kind == "int":
            v = [rng.randint(-100, 100) for _ in range(dim)]
        else:
            v = [rng.gauss(0, 1) * scale for _ in range(dim)]
        rows.append(v)
    for _ in range(zeros):
        rows[rng.randrange(n)] = [0] * dim
    for _ in range(dups):
        rows[rng.randrange(n)] = list(rng.choice(rows))
    return rows


CONFIGS = [(2, 1), (3, 1), (4, 1), (5, 2), (3, 2), (15, 1), (7, 1)]


def config(rng, n, **kw):
    num, den = rng.choice(CONFIGS)
    c = {"nn": rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8]), "ms": rng.choice([1, 2, 3, 5, 8, 20]),
         "num": num, "den": den, "mult": num / den, "exp": rng.choice([0, 0, n, n + rng.randint(0, 10), rng.randint(1, max(1, n))]),
         "reinsert": rng.random() < 0.6}
    if rng.random() < 0.1:
        c["progress"] = True
    if rng.random() < 0.1:
        for k, v in rng.sample(sorted(core.DEFAULTS.items()), 2):
            c.update(v)
    c.update(kw)
    c["mult"] = c["num"] / c["den"]
    return leave(rng, c)


def leave(rng, c, share=0.5):
    left = [k for k, v in core.DEFAULTS.items() if all(c[x] == y for x, y in v.items()) and rng.random() < share]
    c.pop("defaults", None)
    if left:
        c["defaults"] = left
    return c


def histories(c, num, maxrows, depth, ops="all", seed=0, module="GenHist"):
    """API histories generated by TLC from GenHist (or another generator)."""
    rc, out = c.tlc(module, "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", workers=1,
                    simulate="num=%d" % num, extra=["-depth", str(depth + 2)], seed=core.SEED * 7919 + seed,
                    env={"MAXROWS": str(maxrows), "DEPTH": str(depth), "OPS": ops})
    hs = []
    for line in out.splitlines():
        if line.startswith('"HIST '):
            hs.append(json.loads(json.loads(line)[5:]))
    if not hs:
        raise core.ToolError(module + " produced nothing:\n" + out[-2000:])
    return hs


def every_history(c, maxrows, depth, ops="all"):
    """All API histories of that length."""
    rc, out = c.tlc("GenHist", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", workers=4, seed=core.SEED,
                    env={"MAXROWS": str(maxrows), "DEPTH": str(depth), "OPS": ops, "EVERY": "1"})
    c.count_states(out)
    hs = [json.loads(json.loads(x)[5:]) for x in out.splitlines() if x.startswith('"HIST ')]
    if not hs:
        raise core.ToolError("GenHist produced nothing:\n" + out[-2000:])
    return hs


def bind(rng, h, sid, kind="tab", nrows=24, rows=None, emb=None, cfg=None, ties=False, threads=1, style=None, extra=True,
         exact_rows=True, maxsearch=None):
    """Turns an abstract history into a scenario: picks the elements, configurations, queries."""
    cfg = cfg or config(rng, nrows)
    if rows is None:
        rows = table(rng, nrows, style or rng.choice(["metric", "random", "cluster"]))
    nr = len(rows)
    order = list(range(nr))
    rng.shuffle(order)
    cur, nxt = [], 0  # rows of the builder

    def take(k, have):
        # rows not used by this builder
        free = [r for r in order if r not in have]
        return free[:k]

    ops = [{"op": "matrix"}]
    imgs, objs, done = {}, {}, 0
    def qs():
        return [rng.randrange(nr) for _ in range(3)]
    for e in h:
        o = dict(e)
        k = o.pop("k", None)
        n = o["op"]
        if n in ("new", "push", "resume"):
            have = set() if n == "new" else set(imgs[o["from"]]) if n == "resume" else set(cur)
            o["rows"] = take(k, have)
            cur = ([] if n == "new" else list(imgs[o["from"]]) if n == "resume" else cur) + o["rows"]
            if n != "push":
                o["cfg"] = cfg
        if n == "save":
            imgs[o["as"]] = objs[o["ix"]] if "ix" in o else list(cur)
            o["as"] = str(o["as"])
        if n == "load":
            objs[o["ix"]] = imgs[o["from"]]
            if rng.random() < 0.3:
                o["own"] = True
        if n == "owned":
            objs[o["ix"]] = list(cur)
        if "from" in o:
            o["from"] = str(o["from"])
        if "ix" in o:
            o["ix"] = str(o["ix"])
        if n == "search":
            o.update(qs=qs(), ms=rng.choice(maxsearch or [0, 1, 2, 3, 5, 8, 30, 1000]), k=rng.choice([0, 1, 2, 5, 100]))
        if n == "reorder_keys":
            o["keys"] = [rng.randint(0, 3) for _ in range(o.pop("n"))]
        o.pop("n", None) if n == "reorder" else None
        ops.append(o)
        if n in ("reorder", "reorder_keys") and extra:
            pass
    for i in sorted(objs):
        ops.append({"op": "dump", "ix": str(i)})
        ops.append({"op": "search", "ix": str(i), "qs": qs(), "ms": 4, "k": 3})
        ops.append({"op": "search", "ix": str(i), "qs": qs(), "ms": 50, "k": 50})
    s = {"id": sid, "kind": kind, "threads": threads, "rows": rows, "ops": ops, "ties": ties}
    if emb:
        s["emb"] = emb
    return s


def trace(s, evs, **meta):
    """History for TraceGranne."""
    h = {"sc": s["id"], "ties": s.get("ties", False), "events": evs}
    if s.get("threads", 1) > 1:
        h["par"] = True
    if s.get("tierule"):
        h["tierule"] = True
    h.update(meta)
    return h
