"""Element collections (C02) and sums of embeddings (C15): harness mode coll, specifications Collections / TraceColl."""
import itertools
from . import core, seqgen
from .seqprops import pick


def bind(rng, h, sid, kind, rows, dim, **kw):
    """Gives the operations of a generated history their contents."""
    ops = []
    for o in h:
        if not isinstance(o, dict):
            continue
        o = dict(o)
        n = o.pop("n", 0)
        if o["op"] in ("new", "push"):
            o["rows"] = [rng.randrange(len(rows)) for _ in range(n)]
        if o["op"] == "permute":
            p = list(range(n))
            rng.shuffle(p)
            o["perm"] = p
        ops.append(o)
    s = {"id": sid, "kind": kind, "rows": rows, "dim": dim, "ops": ops}
    s.update(kw)
    return s


def hist(s, evs):
    """History for TraceColl."""
    h = {"sc": s["id"], "kind": s["kind"], "dim": s["dim"], "rows": s["rows"] if s["kind"] == "sum" else [], "desc": [], "num": 0}
    if s["kind"] == "sum":
        if "embn" in s:
            h["embn"] = h["num"] = s["embn"]
        else:
            h["emb"] = s["emb"]
            h["num"] = len(s["emb"])
    out = []
    for e in evs:
        if e["ev"] == "desc":
            h["desc"] = e["desc"]
            continue
        e = dict(e)
        for f in "kja":
            if f in e:
                e[f] = "s%d" % e[f]
        if "all" in e:
            e["all"] = {"s" + k: v for k, v in e["all"].items()}
        out.append(e)
    h["events"] = out
    return h


def run(c, scs):
    by = {s["id"]: s for s in scs}
    ev = c.harness("coll", scs)
    hs = [hist(by[i], e) for i, e in ev.items()]
    c.cnt["evaluations"] += sum(len(h["events"]) for h in hs)
    k = c.notes.setdefault("histories", {})
    for s in scs:
        k[s["kind"]] = k.get(s["kind"], 0) + 1
    for h in hs[:3]:
        c.sample({"scenario": h["sc"], "kind": h["kind"], "events": [{k: v for k, v in e.items() if k != "all"} for e in h["events"][:6]]})
    c.validate("TraceColl", hs, view="View", mode="coll", scenarios=by)


def dense_rows(rng, n, dim, kind):
    rows = [[rng.choice([rng.gauss(0, 1), rng.randint(-100, 100), 0.0]) for _ in range(dim)] for _ in range(n)]
    rows[0] = [0.0] * dim
    if n > 1:
        rows[-1] = [-x for x in rows[n // 2]]
    return rows


def big(rng, i, kind, n, rev=False):
    p = list(range(n))
    if rev:
        p.reverse()
    else:
        rng.shuffle(p)
    return {"id": "big%d" % i, "kind": kind, "rows": [[0]], "emb": [[0]], "dim": 1,
            "ops": [{"op": "bigpermute", "n": n, "perm": p, "how": ["memory", "saved"][i % 2]}]}


def sum_rows(rng, n, ne, long=False):
    rows = [[rng.randrange(ne) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8, 9, 12]))] for _ in range(n)]
    for r in rows:
        if len(r) > 1 and rng.random() < 0.4:
            r[rng.randrange(len(r))] = r[0]
    if long:
        for L in (255, 256, 257, 300):
            rows[rng.randrange(n)] = [rng.randrange(ne) for _ in range(L)]
    rows[0] = []
    return rows


def c02(c):
    rng = c.rng
    k = itertools.count()
    slicemodel(c)
    scs = []
    for sz, depth, num in pick([(12, 14, 240), (60, 12, 48)], [(12, 14, 700), (12, 30, 200), (60, 12, 150), (400, 10, 20)]):
        hs = seqgen.histories(c, 2 * num, sz, depth, "dense", seed=sz + depth, module="GenColl")
        for j, h in enumerate(hs):
            kind = ["ang", "int"][j % 2]
            dim = rng.choice([1, 1, 2, 3, 5, 8, 17])
            scs.append(bind(rng, h, "d%d" % next(k), kind, dense_rows(rng, 9, dim, kind), dim))
        hs = seqgen.histories(c, num, sz, depth, "sum", seed=sz + depth + 1, module="GenColl")
        for j, h in enumerate(hs):
            ne = rng.choice([3, 30, 1 << 24])
            rows = sum_rows(rng, 9, ne, long=rng.random() < 0.2)
            if ne > 30:
                rows[1] = [0, ne - 1, 65535, 65536, 255, 256, ne - 1]
            scs.append(bind(rng, h, "s%d" % next(k), "sum", rows, 2, emb=[[1, 2]] * 3, termsonly=True))
    for i, (kind, n) in enumerate([("ang", 10001), ("int", 20011), ("sum", 10001), ("sum", 20500)] + pick([], [("sum", 40001), ("ang", 45000), ("int", 10000), ("sum", 10000)])):
        scs.append(big(rng, i, kind, n))
    run(c, scs)


def embeddings(rng, ne, dim, style):
    if style == "norms":        # different norms, so that the order by norm is determined
        out, seen = [], set()
        while len(out) < ne:
            v = [rng.randint(-90, 90) for _ in range(dim)]
            n = sum(x * x for x in v)
            if n not in seen:
                seen.add(n)
                out.append(v)
        return out
    if style == "zero":
        return [[0] * dim if rng.random() < 0.3 else [rng.randint(-9, 9) for _ in range(dim)] for _ in range(ne)]
    return [[rng.randint(-300, 300) for _ in range(dim)] for _ in range(ne)]


def c15(c):
    rng = c.rng
    k = itertools.count()
    slicemodel(c)
    scs = []
    for sz, depth, num in pick([(12, 12, 320), (40, 8, 48)], [(12, 14, 900), (60, 12, 150)]):
        for j, h in enumerate(seqgen.histories(c, num, sz, depth, "sum", seed=sz + depth, module="GenColl")):
            style = rng.choice(["norms", "norms", "zero", "any"])
            dim = rng.choice([2, 3, 4, 8, 31, 33] if style == "norms" else [1, 2, 5, 8, 32, 40])
            ne = rng.choice([1, 3, 3, 10, 10, 30])
            s = bind(rng, h, "s%d" % next(k), "sum", sum_rows(rng, 8, ne, long=rng.random() < 0.15), dim,
                     emb=embeddings(rng, ne, dim, style), keys=True)
            live = [o["k"] for o in s["ops"] if "k" in o]
            if live:
                s["ops"].append({"op": "create", "k": live[0], "lists": [[rng.randrange(ne) for _ in range(rng.choice([0, 1, 2, 7, 40]))] for _ in range(4)]})
            scs.append(s)
    # no embeddings at all
    for j, h in enumerate(seqgen.histories(c, pick(12, 60), 12, 10, "sum", seed=77, module="GenColl")):
        scs.append(bind(rng, h, "none%d" % j, "sum", [[]] * 8, 0, emb=[], keys=True))
    # more embeddings than 16 bits can number
    for i, n in enumerate(pick([65537, 1200000], [65537, 70000, 70001, 1048577, 1200000, 1 << 24])):
        rows = [[], [n - 1], [65535, 65536, 0], [65536, 65536], [255, 256, 257, n - 1] + [1048575, 1048576][:2 * (n > 1 << 20)]]
        scs.append({"id": "many%d" % i, "kind": "sum", "rows": rows, "dim": 3, "embn": n, "ops": [
            {"op": "new", "k": 1, "how": "new", "rows": [1, 2]}, {"op": "push", "k": 1, "how": ["trait", "inherent"][i % 2], "rows": [0, 3, 4]},
            {"op": "save", "a": 1, "k": 1}, {"op": "load", "k": 2, "a": 1, "how": "file", "align": 0}, {"op": "permute", "k": 2, "perm": [4, 0, 3, 1, 2]},
            {"op": "borrow", "k": 3, "j": 1}, {"op": "create", "k": 3, "lists": [[n - 1, 65536], [65535], []]}]})
    run(c, scs)


def slicemodel(c):
    """The stored form (offsets and data, widths, sharing) stands for the sequences it should, mistakes do not."""
    for fixed, v, els, width in [(0, "none", 2, 2), (0, "none", 3, 1), (1, "none", 4, 1), (0, "noshift", 3, 2), (0, "norebase", 3, 2), (0, "nocopy", 3, 1),
                                 (1, "nowidth", 3, 1)] + pick([], [(0, "none", 3, 2), (1, "none", 3, 2)]):
        c.model("SliceVec", "SPECIFICATION Spec\nINVARIANT Faithful\nCHECK_DEADLOCK FALSE\nCONSTANTS VARIANT = \"%s\" MaxEls = %d MaxWidth = %d "
                "Vals = {0, 1} FIXED = %s" % (v, els, width, "TRUE" if fixed else "FALSE"), v == "none", "SliceVec %s %s" % ("fixed" if fixed else "variable", v))
