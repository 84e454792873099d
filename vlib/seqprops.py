"""Checks on sequential API histories (harness mode seq; specification Granne / TraceGranne)."""
import itertools, json, os, tempfile
from . import core, seqgen
from .core import THOROUGH


def pick(quick, thorough):
    return thorough if THOROUGH else quick


def run(c, scs, module="TraceGranne", ties_auto=True, **kw):
    ev = c.harness("seq", scs, **kw)
    by = {s["id"]: s for s in scs}
    if len(by) != len(scs):
        raise core.ToolError("duplicate scenario ids")
    hs = []
    for i, e in ev.items():
        s = by[i]
        if ties_auto:
            # equal distances leave the order open: exactness is only required without them
            for x in e:
                if x["ev"] == "matrix" and not x.get("panic"):
                    s["ties"] = s.get("ties", False) or has_ties(x["D"])
        hs.append(seqgen.trace(s, e))
    c.cnt["evaluations"] += len(hs)
    c.validate(module, hs, view="View", scenarios=by, mode="seq")
    for h in hs[:2]:
        c.sample({"scenario": {k: v for k, v in by[h["sc"]].items() if k not in ("rows", "emb")}, "events": h["events"][:5]})
    return hs


def has_ties(D):
    n = len(D)
    seen = set()
    for i in range(n):
        for j in range(n):
            if D[i][j] != D[j][i]:
                return True
            if j < i:
                if D[i][j] in seen:
                    return True
                seen.add(D[i][j])
    return False


def real_rows(rng, kind, n, zeros=0, dups=0):
    """rows (and embeddings) for the real element kinds"""
    dim = rng.choice([3, 4, 5, 8, 17, 33])
    if kind == "sum":
        ne = n + 3
        emb = [[rng.gauss(0, 1) for _ in range(dim)] for _ in range(ne)]
        rows = [sorted(rng.sample(range(ne), rng.choice([1, 2, 3]))) for _ in range(n)]
        for _ in range(zeros):
            rows[rng.randrange(n)] = []
        for _ in range(dups):
            rows[rng.randrange(n)] = list(rng.choice(rows))
        return rows, emb
    return seqgen.vectors(rng, n, dim, "f", zeros, dups, rng.choice([1.0, 0.01, 50.0])), None


def hist_set(c, num, maxrows, depth, ops, sid, kinds=("tab",), threads=(1,), zeros=0, dups=0, cfg=None, seed=0, **kw):
    """Scenarios from spec-generated histories."""
    scs = []
    for i, h in enumerate(seqgen.histories(c, num, maxrows, depth, ops, seed)):
        kind = c.rng.choice(kinds)
        n = maxrows + 2
        emb = None
        if kind == "tab":
            zs = c.rng.sample(range(n), c.rng.randint(0, zeros)) if zeros else ()
            ds = []
            if dups and c.rng.random() < 0.8:
                ids = c.rng.sample(range(n), c.rng.randint(2, min(n, dups)))
                cut = c.rng.randint(1, len(ids))
                ds = [g for g in (ids[:cut], ids[cut:]) if len(g) > 1]
            rows = seqgen.table(c.rng, n, c.rng.choice(["metric", "random", "cluster"]), zs, ds)
        else:
            rows, emb = real_rows(c.rng, kind, n, c.rng.randint(0, zeros), c.rng.randint(0, dups))
        scs.append(seqgen.bind(c.rng, h, "%s%d" % (sid, i), kind=kind, nrows=n, rows=rows, emb=emb,
                               cfg=seqgen.config(c.rng, n, **(cfg or {})), threads=c.rng.choice(threads), **kw))
    return scs


def every(c, ops, sid, share=1.0, depth=None):
    """Every short history of calls, each with some collection of three elements and some configuration."""
    rng = c.rng
    scs = []
    for i, h in enumerate(seqgen.every_history(c, 3, depth or pick(4, 5), ops)):
        if rng.random() > share:
            continue
        n = 5
        scs.append(seqgen.bind(rng, h, "%s%d" % (sid, i), kind="tab", nrows=n, rows=seqgen.table(rng, n, "random"),
                               cfg=seqgen.config(rng, 3, nn=rng.choice([1, 2, 3, 4]), ms=rng.choice([1, 2, 5]))))
    c.cov["short_histories_" + ops] = len(scs)
    return scs


def quiet_seq(sid, kind, rows, ops, emb=None, threads=1, **kw):
    s = {"id": sid, "kind": kind, "threads": threads, "rows": rows, "ops": ops, "ties": False}
    if emb:
        s["emb"] = emb
    s.update(kw)
    return s


# ------------------------------------------------------------------ C01
def c01(c):
    rng = c.rng
    scs = hist_set(c, pick(360, 1500), 16, 16, "all", "h", kinds=("tab", "tab", "ang", "int", "sum"), threads=(1, 1, 3), zeros=1, dups=2)
    scs += every(c, "all", "e")
    # compare the answers of everything that has the same content
    for s in scs:
        add_samesearch(rng, s)
    # nodes around the chunk size of the offsets, and list lengths around the encoding limits
    for n in ([1, 2, 58, 59, 60, 61, 119, 120, 121, 181] + ([] if not THOROUGH else list(range(50, 70)) + [239, 240, 241, 600])):
        rows = [[0] * 1]
        lists = []
        for i in range(n):
            k = rng.choice([0, 1, 2, 3, 4, 5, 8])
            lists.append(sorted(rng.sample([x for x in range(n) if x != i], min(k, n - 1))))
        ops = [{"op": "matrix"}, {"op": "craft", "ix": "a", "as": "1", "rows": [], "craft": [lists], "align": rng.randrange(16)},
               {"op": "resume", "from": "1", "rows": [], "cfg": dict(seqgen.config(rng, 4), nn=max(9, 1)), "how": rng.choice(["file", "bytes"])},
               {"op": "owned", "ix": "o"},
               {"op": "save", "as": "2", "pad": rng.choice([0, 5, 1000])},
               {"op": "load", "from": "2", "ix": "b", "how": "bytes", "align": rng.randrange(16)},
               {"op": "load", "from": "2", "ix": "d", "how": "file"},
               {"op": "save", "as": "3", "ix": "b"}, {"op": "save", "as": "4", "ix": "d", "pad": 17},
               {"op": "save", "as": "5", "ix": "o"},
               {"op": "load", "from": "3", "ix": "e"}, {"op": "load", "from": "4", "ix": "f", "own": True},
               {"op": "load", "from": "5", "ix": "g", "own": True, "how": "file"}]
        scs.append(quiet_seq("n%d" % n, "tab", rows, ops))
    # more layers than the header has room for
    for k in range(pick(40, 200)):
        n = rng.choice([1, 2, 5, 12, 120])
        if k % 2:
            L = rng.choice([20, 60, 80, 90, 100, 105, 110, 115, 120, 150, 300])
            sizes = sorted(rng.randint(1, n) for _ in range(L - 1)) + [n]
            ops = [{"op": "matrix"}, {"op": "craft", "ix": "a", "rows": list(range(n)), "craft": [random_graph(rng, x, rng.choice([0, 1, 2, 5])) for x in sizes]}]
            if sum(2 * len(str(x)) + 4 for x in sizes) > 800:
                ops = None  # (such an image does not exist)
        else:
            ops = None
        if not ops:
            n = min(n, 12)
            num, den = rng.choice([(101, 100), (51, 50), (21, 20), (33, 32), (11, 10)])
            cfg = seqgen.config(rng, n, num=num, den=den, nn=rng.choice([2, 4]), ms=3, exp=rng.choice([0, 0, n, 2 * n]))
            ops = [{"op": "matrix"}, {"op": "new", "rows": list(range(n)), "cfg": cfg}, {"op": "partial", "n": rng.randint(1, n)}, {"op": "owned", "ix": "a"}]
        ops += [{"op": "save", "as": "2", "ix": "a", "pad": rng.choice([0, 3])}, {"op": "load", "from": "2", "ix": "b", "how": rng.choice(["file", "bytes"])}]
        if ops[1]["op"] == "new":
            ops += [{"op": "save", "as": "3"}, {"op": "load", "from": "3", "ix": "d", "own": rng.random() < 0.5}]
        scs.append(quiet_seq("l%d" % k, "tab", seqgen.table(rng, n, "random"), ops))
    # lists as long as the count byte of the format allows, and longer (see known-findings.json)
    for n in (255, 256, 257):
        cfg = dict(seqgen.config(rng, n), nn=n, ms=n + 10, num=1000, den=1, mult=1000, exp=0, reinsert=False)
        ops = [{"op": "matrix"}, {"op": "new", "rows": list(range(n)), "cfg": cfg}, {"op": "build"}, {"op": "owned", "ix": "a"},
               {"op": "save", "as": "1", "ix": "a"}, {"op": "load", "from": "1", "ix": "b"}]
        scs.append(quiet_seq("w%d" % n, "tab", seqgen.table(rng, n, "metric"), ops))
    run(c, scs)
    # images too large to write out
    big = []
    for k, (n, span, deg) in enumerate([(3000, 3000, 30), (260, 260, 254), (900, 70000, 40), (500, 20000000, 12), (500, 4294967290, 6),
                                        (200, 4294967290, 254), (64, 1000, 200), (20000, 20000, 6)]
                                       + pick([], [(100000, 100000, 20), (300000, 300000, 4), (2000, 100000000, 60)])):
        ops = [{"op": "craftbig", "ix": "a", "as": "1", "n": n, "span": span, "deg": deg, "seed": rng.randrange(1 << 30)},
               {"op": "digest", "ix": "a"},
               {"op": "resume", "from": "1", "rows": [], "cfg": dict(seqgen.config(rng, 4), nn=deg), "how": "file"},
               {"op": "digest"},
               {"op": "save", "as": "2", "pad": 3}, {"op": "load", "from": "2", "ix": "b", "how": "file"},
               {"op": "load", "from": "2", "ix": "d", "how": "bytes", "align": 1},
               {"op": "digest", "ix": "b"}, {"op": "digest", "ix": "d"},
               {"op": "owned", "ix": "o"}, {"op": "digest", "ix": "o"},
               {"op": "save", "as": "3", "ix": "b"}, {"op": "load", "from": "3", "ix": "e", "how": "file"}, {"op": "digest", "ix": "e"},
               {"op": "resume", "from": "3", "rows": [], "cfg": dict(seqgen.config(rng, 4), nn=deg + 3), "how": "bytes", "align": 5}, {"op": "digest"}]
        big.append(quiet_seq("big%d" % k, "tab", [], ops, quiet=True))
    for k in range(pick(2, 12)):
        n = rng.choice([300, 1200, 2500])
        kind = rng.choice(["ang", "int", "sum"])
        rows, emb = real_rows(rng, kind, n, 1, 5)
        q = [rng.randrange(n) for _ in range(30)]
        cfg = dict(seqgen.config(rng, n), nn=rng.choice([4, 30, 60, 254]), ms=30, num=rng.choice([2, 4, 15]), den=1, exp=0)
        cfg["mult"] = cfg["num"]
        ops = [{"op": "new", "rows": list(range(n)), "cfg": cfg},
               {"op": "partial", "n": rng.randint(n // 2, n)}, {"op": "digest"},
               {"op": "save", "as": "1"}, {"op": "load", "from": "1", "ix": "a", "how": "file", "ehow": "file"}, {"op": "digest", "ix": "a"},
               {"op": "samesearch", "a": "", "b": "a", "qs": q, "ms": 40, "k": 10},
               {"op": "owned", "ix": "o"}, {"op": "digest", "ix": "o"},
               {"op": "save", "as": "2", "ix": "a"}, {"op": "save", "as": "3", "ix": "o", "pad": 9},
               {"op": "load", "from": "2", "ix": "d", "how": "bytes", "align": 3}, {"op": "digest", "ix": "d"},
               {"op": "load", "from": "3", "ix": "e", "how": rng.choice(["file", "bytes"]), "align": 7, "own": True}, {"op": "digest", "ix": "e"},
               {"op": "samesearch", "a": "d", "b": "e", "qs": q, "ms": 7, "k": 7},
               {"op": "resume", "from": "2", "rows": [], "cfg": cfg, "how": "file"}, {"op": "digest"}]
        big.append(quiet_seq("real%d" % k, kind, rows, ops, emb, threads=4, quiet=True))
    run(c, big, module="TraceImage", ties_auto=False)
    at_scale(c, "C01")


def small_models(c, invs, num, zeros=False):
    """The specification itself, explored exhaustively over small collections (MCGranne)."""
    rng = c.rng
    lines = []
    for k in range(num):
        n = rng.choice([2, 3, 4, 4, 5])
        zs = rng.sample(range(n), rng.randint(1, n - 1)) if zeros and rng.random() < 0.7 else ()
        ds = [rng.sample(range(n), rng.randint(2, n))] if zeros else ()
        D = seqgen.table(rng, n + 2, rng.choice(["metric", "random", "cluster"]), zs, ds)
        cfg = seqgen.config(rng, n)
        cfg = {x: cfg[x] for x in ("nn", "ms", "num", "den", "exp", "reinsert")}
        lines.append({"D": [[int(x * 1024) for x in r] for r in D], "dup": 12 * 1024, "n": n, "cfg": cfg,
                      "exact": cfg["nn"] >= n and cfg["num"] >= 2 * cfg["den"] and cfg["exp"] in (0, n)})
    fd, p = tempfile.mkstemp(dir=c.dir)
    with os.fdopen(fd, "w") as f:
        f.write("\n".join(json.dumps(core.clamp(x)) for x in lines))
    c.model("MCGranne", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + "".join("INVARIANT %s\n" % i for i in invs),
            env={"MODEL": p}, name="MCGranne: %d collections" % num)


def line_rows(rng, n, m):
    """n points and m query points, all at distances from each other that tell them apart"""
    pts = rng.sample(range(0, (1 << 24) // 4), n)
    return [[4 * p] for p in pts] + [[4 * rng.randrange((1 << 24) // 4) + 1] for _ in range(m)]


def uneven(rng, n):
    """Positions none of which is in the middle of two others: base 3 without the digit 2."""
    return [int(bin(x)[2:], 3) for x in rng.sample(range(1 << 15), n)]


def at_scale(c, what):
    """Indexes with more nodes than 16 bits can number (specification TraceScale)."""
    rng = c.rng
    scs = []
    search = what in ("C05", "C06")
    for k, sizes in enumerate(pick([[300, 5000, 70000], [66000]], [[300, 5000, 70000], [66000], [10, 1000, 140000, 270000], [1, 65537]])):
        if not search:
            continue
        rows = line_rows(rng, sizes[-1], 20)
        q = list(range(sizes[-1], len(rows)))
        ops = [{"op": "craftlayers", "ix": "a", "as": "1", "sizes": sizes, "deg": rng.choice([5, 9]), "seed": rng.randrange(1 << 30)},
               {"op": "graph", "ix": "a"}]
        if what == "C05":
            ops += [{"op": "linesearch", "ix": "a", "qs": q[:8], "ms": ms, "k": rng.choice([1, 10, 500])} for ms in (1, 5, 40, 300)]
        ops.append({"op": "linesearch", "ix": "a", "qs": q[8:11], "ms": rng.choice([sizes[-1], 400000]), "k": 400000})
        ops.append({"op": "linesearch", "ix": "a", "qs": q[8:11], "ms": sizes[-1], "k": 50, "fewer": True})
        scs.append(quiet_seq("Z%d" % k, "line", rows, ops, quiet=True))
    # long ways to go: chains of nodes, with queries near the other end
    for k, n in enumerate(pick([800, 3000], [800, 3000, 20000])):
        if what != "C05":
            continue
        rows = sorted(line_rows(rng, n, 0)) + [[4 * 4000000 + 1], [1], [4 * 3000000 + 3]]
        ops = [{"op": "craftlayers", "ix": "a", "as": "1", "sizes": [n], "deg": rng.choice([1, 2, 4]), "chain": True, "seed": rng.randrange(1 << 30)},
               {"op": "graph", "ix": "a"}]
        ops += [{"op": "linesearch", "ix": "a", "qs": [n, n + 1, n + 2], "ms": ms, "k": 10} for ms in (1, 2, 9)]
        scs.append(quiet_seq("X%d" % k, "line", rows, ops, quiet=True))
    for k, n in enumerate(pick([70000], [70000, 200000])):
        rows = line_rows(rng, n, 12)
        q = list(range(n, len(rows)))
        cfg = seqgen.config(rng, n, nn=rng.choice([4, 8]), ms=6, num=15, den=1, reinsert=False, exp=rng.choice([0, n]), progress=False)
        first = rng.choice([n // 3, 65536, 65535])
        ops = [{"op": "new", "rows": list(range(n)), "cfg": cfg}, {"op": "partial", "n": first}, {"op": "graph"}]
        if what in ("C01", "C03", "C04"):
            ops += [{"op": "save", "as": "1"}, {"op": "resume", "from": "1", "rows": [], "cfg": cfg, "how": "file"}]
        ops += [{"op": "build"}, {"op": "graph"}]
        if what == "C01":
            ops += [{"op": "save", "as": "2"}, {"op": "load", "from": "2", "ix": "a", "how": "file"}, {"op": "owned", "ix": "b"},
                    {"op": "save", "as": "3", "ix": "a", "pad": 5}, {"op": "load", "from": "3", "ix": "d", "how": "bytes", "align": 3}]
        if search:
            ops += [{"op": "linesearch", "qs": q[:8], "ms": ms, "k": rng.choice([1, 20])} for ms in (1, 20, 200) if what == "C05"]
            ops += [{"op": "linesearch", "qs": q[8:10], "ms": n, "k": n},
                    {"op": "linesearch", "qs": q[8:10], "ms": n + 1, "k": n // 2, "fewer": True}]
        scs.append(quiet_seq("Y%d" % k, "line", rows, ops, threads=8, scale=True))
    if what == "C18":
        scs = []
    # linking at scale, with one thread: points none of which is halfway between two others
    for k, n in enumerate(pick([700, 1100, 2600, 10200], [700, 800, 1100, 2000, 2600, 5000, 10001, 20000, 32000]) if what in ("C04", "C18") else []):
        rows = [[p] for p in uneven(rng, n)]
        cfg = seqgen.config(rng, n, nn=rng.choice([3, 4] if n < 1000 else [6, 8]), ms=rng.choice([4, 6, 10]), num=rng.choice([2, 4, 15]), den=1,
                            reinsert=rng.random() < 0.6, exp=rng.choice([0, n]), progress=False)
        if n in (1100, 2000):
            cfg = dict(cfg, nn=30, ms=rng.choice([30, 50]) if not THOROUGH else 200)
        first, second = sorted(rng.sample(range(n // 3, n), 2))
        ops = [{"op": "new", "rows": list(range(n)), "cfg": cfg}, {"op": "partial", "n": first}, {"op": "graph"},
               {"op": "save", "as": "1"}, {"op": "resume", "from": "1", "rows": [], "cfg": cfg, "how": "file"},
               {"op": "partial", "n": second}, {"op": "graph"}, {"op": "build"}, {"op": "graph"}]
        scs.append(quiet_seq("W%d" % k, "line", rows, ops, scale=True, exact=True))
    ev = c.harness("seq", scs)
    hs = []
    for s in scs:
        h = seqgen.trace(s, ev[s["id"]])
        h["pos"] = [r[0] for r in s["rows"]]
        if s.get("exact"):
            for e in h["events"]:
                if e["ev"] in ("partial", "build"):
                    e["exact"] = True
        add_hints(h["events"], h["pos"])
        hs.append(h)
    c.cnt["evaluations"] += len(hs)
    c.validate("TraceScale", hs, view="View", scenarios={s["id"]: dict(s, rows="(%d points)" % len(s["rows"])) for s in scs}, mode="seq")


def add_hints(evs, pos):
    """How the answers of wide searches are connected (TraceScale checks it)."""
    g = None
    for e in evs:
        if e.get("panic"):
            return
        g = e.get("layers", g)
        if e["ev"] != "linesearch" or e["ms"] < len(g[-1]) or e.get("fewer"):
            continue
        e["hints"] = []
        for q, res in zip(e["qs"], e["res"]):
            n = len(g[-1])
            rank = [0] * n
            for i, r in enumerate(res):
                if 0 <= r[0] < n:
                    rank[r[0]] = i + 1
            depth, come = [0] * len(res), [0] * len(res)
            seen = set()
            x = 0
            for layer in g[:-1]:
                while True:
                    y = min(layer[x] + [x], key=lambda j: abs(pos[j] - q))
                    if y == x:
                        break
                    x = y
            todo = [x]
            seen.add(x)
            while todo:
                nxt = []
                for x in todo:
                    for y in g[-1][x]:
                        if y not in seen and 0 <= y < n and rank[y]:
                            seen.add(y)
                            nxt.append(y)
                            come[rank[y] - 1] = rank[x]
                            depth[rank[y] - 1] = depth[rank[x] - 1] + 1
                todo = nxt
            e["hints"].append({"rank": rank, "from": come, "depth": depth})


def add_samesearch(rng, s):
    """Searches on pairs of objects with the same content, right after the second one came to be."""
    nr = len(s["rows"])
    tok, out, b, imgs, objs = 0, [], None, {}, {}
    for o in s["ops"]:
        out.append(o)
        n = o["op"]
        if n in ("new", "push", "build", "partial"):
            tok += 1
            b = tok
        elif n == "save":
            imgs[o["as"]] = objs[o["ix"]] if "ix" in o else b
        elif n == "resume":
            b = imgs[o["from"]]
            if o["rows"]:
                tok += 1
                b = tok
            else:
                for x, t in objs.items():
                    if t == b:
                        cut = any(True for _ in ())
                        out.append({"op": "samesearch", "a": x, "b": "", "qs": [rng.randrange(nr) for _ in range(3)], "ms": 5, "k": 5})
                        break
        elif n in ("load", "owned"):
            t = imgs[o["from"]] if n == "load" else b
            objs[o["ix"]] = t
            src = [x for x, y in objs.items() if y == t and x != o["ix"]] + ([""] if b == t else [])
            if src:
                out.append({"op": "samesearch", "a": rng.choice(src), "b": o["ix"], "qs": [rng.randrange(nr) for _ in range(3)],
                            "ms": rng.choice([1, 3, 20]), "k": 5})
        elif n in ("reorder", "reorder_keys"):
            tok += 1
            objs[o["ix"]] = tok
    s["ops"] = out


# ------------------------------------------------------------------ C03
def c03(c):
    rng = c.rng
    small_models(c, ["InvC03"], pick(150, 1500))
    scs = hist_set(c, pick(450, 2000), 24, 12, "build", "h", kinds=("tab", "tab", "ang", "int", "sum"), threads=(1, 1, 2, 4), zeros=3, dups=8)
    for s in scs:  # resuming with other settings
        for o in s["ops"]:
            if o["op"] == "resume" and rng.random() < 0.5:
                o["cfg"] = dict(o["cfg"], nn=rng.randint(1, 9), ms=rng.choice([1, 4, 30]))
    for k in range(pick(6, 40)):
        n = rng.choice([150, 300, pick(600, 2500)])
        kind = rng.choice(["ang", "int", "sum"])
        rows, emb = real_rows(rng, kind, n, rng.choice([0, 3]), rng.choice([0, n // 4]))
        cfg = seqgen.config(rng, n, nn=rng.choice([5, 10, 30]), ms=rng.choice([5, 50, 200]))
        ops = [{"op": "new", "rows": list(range(n)), "cfg": cfg}, {"op": "partial", "n": n // 3}, {"op": "partial", "n": n // 3 + 1},
               {"op": "save", "as": "1"}, {"op": "resume", "from": "1", "rows": [], "cfg": cfg}, {"op": "build"}]
        scs.append(quiet_seq("big%d" % k, kind, rows, ops, emb, threads=rng.choice([1, 4, 8])))
    run(c, scs)
    at_scale(c, "C03")


# ------------------------------------------------------------------ C04
def layer_sizes(cfg, total):
    """sizes as prescribed (used only to place build steps at layer boundaries)"""
    import math
    m = cfg["mult"]
    L = math.floor(math.log(total) / math.log(m) + 1e-9)
    return [min(total, math.ceil(total / m ** (L - k) - 1e-9)) for k in range(L + 1)]


def interrupted(rng, sid, n, kind="tab"):
    """The same build steps with and without saving and resuming between them."""
    rows, emb = (seqgen.table(rng, n, rng.choice(["metric", "random", "cluster"])), None) if kind == "tab" else real_rows(rng, kind, n)
    cfg = seqgen.config(rng, n)
    cuts = sorted(rng.sample(range(1, n + 1), rng.randint(1, min(4, n)))) + [n]
    steps = [{"op": "partial", "n": x} for x in cuts]
    incremental = cfg["exp"] > 0 and rng.random() < 0.5

    def build(interrupt, name):
        first = cuts[0] if incremental else n
        ops, have = [{"op": "new", "rows": list(range(first)), "cfg": cfg}], first
        for k, x in enumerate(cuts):
            if x > have:
                ops.append({"op": "push", "rows": list(range(have, x))})
                have = x
            ops.append({"op": "partial", "n": x})
            if interrupt and k < len(cuts) - 1:
                for _ in range(rng.randint(1, 2)):
                    img = "%s%d" % (name, k)
                    ops.append({"op": "save", "as": img, "pad": rng.choice([0, 11])})
                    ops.append({"op": "resume", "from": img, "rows": [], "cfg": cfg, "how": rng.choice(["file", "bytes"]), "align": rng.randrange(16)})
        return ops + [{"op": "owned", "ix": name}]
    ops = [{"op": "matrix"}] + build(False, "a") + build(True, "b") + [{"op": "same", "a": "b", "b": "a"}]
    return quiet_seq(sid, kind, rows, ops, emb)


def c04(c):
    rng = c.rng
    small_models(c, ["InvC04"], pick(200, 2000))
    scs = hist_set(c, pick(450, 2000), 26, 14, "build", "h", kinds=("tab", "tab", "ang", "sum"), threads=(1, 1, 3))
    scs += every(c, "build", "e", depth=pick(5, 6), share=pick(0.4, 0.5))
    for k in range(pick(180, 600)):
        scs.append(interrupted(rng, "i%d" % k, rng.randint(2, pick(20, 30)), rng.choice(["tab", "tab", "ang", "sum"])))
    # larger totals, all sizes of interest around powers of the multiplier
    tot = [16, 17, 63, 64, 65, 80, 81, 82, 124, 125, 126, 224, 225, 226, 250]
    for k in range(pick(16, 120)):
        n = rng.choice(tot)
        cfg = seqgen.config(rng, n, nn=3, ms=3, reinsert=False, exp=rng.choice([0, n, n + 1, 2 * n, 1000, n // 2 + 1, 1]))
        rows = seqgen.vectors(rng, n, 3, "f")
        cuts = sorted(rng.sample(range(1, n + 1), 4))
        ops = [{"op": "new", "rows": list(range(cuts[1])), "cfg": cfg}, {"op": "partial", "n": cuts[0]}, {"op": "push", "rows": list(range(cuts[1], n))},
               {"op": "partial", "n": cuts[2]}, {"op": "save", "as": "1"},
               {"op": "resume", "from": "1", "rows": [], "cfg": cfg}, {"op": "partial", "n": cuts[3]}, {"op": "build"}]
        scs.append(quiet_seq("s%d" % k, "ang", rows, ops, threads=rng.choice([1, 4])))
    # few elements of many that are expected
    for k in range(pick(60, 400)):
        n = rng.randint(2, 60)
        num = rng.choice([2, 3, 7, 10, 15])
        e = rng.randint(1, 26)
        exp = rng.choice([rng.randint(n, 100000000), num ** e + rng.choice([-1, 0, 1, 1]), rng.randint(n, 5000)])
        exp = max(n, min(exp, 100000000))
        cfg = seqgen.config(rng, n, nn=3, ms=3, num=num, den=1, exp=exp)
        cuts = sorted(rng.sample(range(1, n + 1), 2))
        ops = [{"op": "new", "rows": list(range(n)), "cfg": cfg}, {"op": "partial", "n": cuts[0]}, {"op": "partial", "n": cuts[1]}, {"op": "build"}]
        scs.append(quiet_seq("m%d" % k, "ang", seqgen.vectors(rng, n, 3, "f"), ops))
    run(c, scs)
    at_scale(c, "C04")


# ------------------------------------------------------------------ C05 / C06
def random_graph(rng, n, deg):
    return [sorted(rng.sample([x for x in range(n) if x != i], min(n - 1, rng.randint(0, deg)))) for i in range(n)]


def random_layers(rng, n):
    L = rng.choice([1, 1, 2, 2, 3, 4])
    sizes = sorted(rng.randint(1, n) for _ in range(L - 1)) + [n]
    return [random_graph(rng, k, rng.choice([1, 2, 3, 5, 8])) for k in sizes]


def rows_for(rng, kind, n):
    if kind == "ties":
        return seqgen.tied(rng, n, rng.choice([1, 2, 3, 5])), None, "tab"
    if kind == "tab":
        return seqgen.table(rng, n, rng.choice(["metric", "random", "cluster"])), None, "tab"
    return real_rows(rng, kind, n) + (kind,)


def crafted(rng, sid, n, wide=False, kind="tab"):
    if kind == "ties":
        kind, rows, emb = "tab", seqgen.tied(rng, n + 3, rng.choice([1, 2, 3, 5])), None
    elif kind == "tab":
        rows, emb = seqgen.table(rng, n + 3, rng.choice(["metric", "random", "cluster"])), None
    else:
        rows, emb = real_rows(rng, kind, n + 3, rng.choice([0, 0, 2]), rng.choice([0, 0, 4]))
    els = list(range(n + 3))
    rng.shuffle(els)
    els = els[:n + rng.choice([0, 0, 2])]  # sometimes more elements than nodes
    layers = random_layers(rng, n)
    ops = [{"op": "matrix"}, {"op": "craft", "ix": "a", "as": "1", "rows": els, "craft": layers, "align": rng.randrange(16)},
           {"op": "load", "from": "1", "ix": "b", "how": "file"}]
    # through a builder: the search on lists of fixed width
    ops += [{"op": "resume", "from": "1", "rows": [], "cfg": seqgen.config(rng, n, nn=max(9, n)), "how": "bytes"}]
    for _ in range(6):
        ms = rng.choice([n, n + 1, 3 * n, 1000, 10 ** 15]) if wide else rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, n, n + 3, 100])
        k = rng.choice([0, 1, 2, 3, n, 1000])
        o = {"op": "search", "qs": [rng.randrange(n + 3) for _ in range(4)], "ms": ms, "k": k}
        t = rng.choice(["a", "b", ""])
        if t:
            o["ix"] = t
        ops.append(o)
    return quiet_seq(sid, kind, rows, ops, emb)


def c05(c):
    rng = c.rng
    small_models(c, ["InvC05"], pick(40, 300))
    scs = []
    for k in range(pick(750, 3000)):
        scs.append(crafted(rng, "g%d" % k, rng.choice([1, 2, 3, 5, 8, 12, 16]), kind=rng.choice(["tab", "tab", "ties", "ties", "ang", "int", "sum"])))
    scs += hist_set(c, pick(180, 800), 20, 12, "all", "h", kinds=("tab", "ang", "int", "sum"), maxsearch=[0, 1, 2, 3, 4, 6, 1000])
    # searches on builds with ties, zero vectors and duplicates (equally distant nodes are ordered by id)
    scs += hist_set(c, pick(120, 400), 20, 10, "build", "t", kinds=("ang", "int", "sum"), zeros=3, dups=10, threads=(1, 3), seed=3)
    # larger builds
    for k in range(pick(3, 25)):
        n = rng.choice([100, 200])
        kind = rng.choice(["tab", "ang", "sum"])
        rows, emb = (seqgen.table(rng, n), None) if kind == "tab" else real_rows(rng, kind, n)
        cfg = seqgen.config(rng, n, nn=rng.choice([4, 6]), ms=20)
        ops = [{"op": "matrix"}, {"op": "new", "rows": list(range(n)), "cfg": cfg}, {"op": "build"}]
        for ms in (1, 2, 5, 10, 30, n):
            ops.append({"op": "search", "qs": [rng.randrange(n) for _ in range(5)], "ms": ms, "k": rng.choice([1, 5, 100])})
        scs.append(quiet_seq("b%d" % k, kind, rows, ops, emb, threads=4))
    # several threads ask at the same time
    for s in scs:
        for o in s["ops"]:
            if o["op"] == "search" and rng.random() < 0.1:
                o["at_once"] = rng.choice([2, 4, 8])
    run(c, scs)
    at_scale(c, "C05")


def c06(c):
    rng = c.rng
    small_models(c, ["InvC06"], pick(100, 800))
    scs = []
    # every directed graph on 4 nodes (3 nodes with every query position), in one layer
    arcs = [(i, j) for i in range(4) for j in range(4) if i != j]
    rows = seqgen.table(rng, 6, "random")
    allg = list(range(1 << len(arcs)))
    per = 128
    for p in range(0, len(allg), per):
        ops = [{"op": "matrix"}]
        for g in allg[p:p + per]:
            lists = [[] for _ in range(4)]
            for b, (i, j) in enumerate(arcs):
                if g >> b & 1:
                    lists[i].append(j)
            ops.append({"op": "craft", "ix": "a", "rows": [0, 1, 2, 3], "craft": [lists]})
            ops.append({"op": "search", "ix": "a", "qs": [rng.randrange(6)], "ms": rng.choice([4, 4, 5, 100]), "k": rng.choice([4, 4, 2, 9])})
        scs.append(quiet_seq("all4-%d" % p, "tab", rows, ops))
    c.cov["exhaustive_graphs"] = len(allg)
    for k in range(pick(450, 2500)):
        scs.append(crafted(rng, "g%d" % k, rng.choice([1, 2, 3, 5, 8, 12, 20]), wide=True, kind=rng.choice(["tab", "tab", "ties", "ang", "sum"])))
    # builds no larger than the neighbour limit: nothing is missed
    for k in range(pick(360, 1200)):
        n = rng.randint(1, 16)
        kind = rng.choice(["tab", "tab", "ang", "int", "sum"])
        rows, emb = (seqgen.table(rng, n + 2, rng.choice(["metric", "random", "cluster"])), None) if kind == "tab" else real_rows(rng, kind, n + 2)
        cfg = seqgen.config(rng, n, nn=rng.randint(n, n + 3), exp=rng.choice([0, n]))
        if cfg["mult"] < 2:
            cfg.update(num=2, den=1, mult=2)
        ops = [{"op": "matrix"}, {"op": "new", "rows": list(range(n)), "cfg": cfg}, rng.choice([{"op": "build"}, {"op": "partial", "n": n}])]
        if rng.random() < 0.4:
            m = rng.randint(1, n)
            ops.insert(2, {"op": "partial", "n": m})
        ops.append({"op": "search", "qs": list(range(n + 2))[:6], "ms": rng.choice([n, n + 5]), "k": n, "exact": True})
        ops += [{"op": "save", "as": "1"}, {"op": "load", "from": "1", "ix": "a"},
                {"op": "search", "ix": "a", "qs": [rng.randrange(n + 2) for _ in range(3)], "ms": rng.choice([n, n + 5]), "k": rng.choice([1, n]), "exact": True}]
        scs.append(quiet_seq("x%d" % k, kind, rows, ops, emb, threads=rng.choice([1, 1, 4])))
    run(c, scs)
    at_scale(c, "C06")


# ------------------------------------------------------------------ C07
def c07(c):
    rng = c.rng
    small_models(c, ["InvC07"], pick(100, 800))
    scs = []
    for k in range(pick(600, 2500)):
        kind = rng.choice(["tab", "tab", "ang", "int", "sum"])
        n = rng.choice([0, 1, 2, 3, 5, 9, 14, 20, 30])
        rows, emb = (seqgen.table(rng, n + 2, rng.choice(["metric", "random", "cluster"])), None) if kind == "tab" else real_rows(rng, kind, n + 2)
        ops = [{"op": "matrix"}]
        if n > 0 and rng.random() < 0.4:
            layers = random_layers(rng, n)
            els = list(range(n + rng.choice([0, 0, 2])))
            ops.append({"op": "craft", "ix": "z", "as": "1", "rows": els, "craft": layers})
            done = n
        else:
            cfg = seqgen.config(rng, n)
            if rng.random() < 0.5:
                cfg.update(num=2, den=1, mult=2)
            done = n if rng.random() < 0.6 else rng.randint(0, n)
            ops += [{"op": "new", "rows": list(range(n)), "cfg": cfg}, {"op": "partial", "n": done}, {"op": "save", "as": "1"}]
        how = rng.choice(["file", "bytes", "owned"])
        ops.append({"op": "load", "from": "1", "ix": "a", "how": rng.choice(["file", "bytes"]), "ehow": rng.choice(["file", "bytes"])})
        if how == "owned" and ops[1]["op"] == "new":
            ops.append({"op": "owned", "ix": "r"})
        else:
            ops.append({"op": "load", "from": "1", "ix": "r", "how": rng.choice(["file", "bytes"]), "align": rng.randrange(16),
                        "ehow": rng.choice(["file", "bytes"]), "ealign": rng.randrange(16), "own": rng.random() < 0.3})
        def reo():
            if rng.random() < 0.5:
                return {"op": "reorder", "ix": "r", "progress": rng.random() < 0.2}
            keys = [rng.randint(0, rng.choice([1, 3, 1000])) for _ in range(done)]
            if done and rng.random() < 0.7:
                keys[0] = -1 + 0 if False else 0
                keys[1:] = [x + 1 for x in keys[1:]]
            return {"op": "reorder_keys", "ix": "r", "keys": keys, "progress": rng.random() < 0.2}
        ops.append(reo())
        q = [rng.randrange(n + 2) for _ in range(4)]
        for ms in (1, 3, 50):
            ops.append({"op": "samesearch", "a": "a", "b": "r", "qs": q, "ms": ms, "k": rng.choice([1, 3, 50]), "usemap": True})
        ops += [{"op": "save", "ix": "r", "as": "2", "pad": rng.choice([0, 9])},
                {"op": "load", "from": "2", "ix": "s", "how": rng.choice(["file", "bytes"]), "ehow": rng.choice(["file", "bytes"])},
                {"op": "samesearch", "a": "r", "b": "s", "qs": q, "ms": 4, "k": 4}]
        ops.append(reo())
        ops.append({"op": "dump", "ix": "r"})
        scs.append(quiet_seq("r%d" % k, kind, rows, ops, emb, threads=rng.choice([1, 4])))
    scs += hist_set(c, pick(150, 500), 16, 16, "all", "h", kinds=("tab", "tab", "ang", "int", "sum"), seed=7)
    scs += every(c, "all", "e")
    # many layers: layered graphs with repeated sizes, and multipliers close to one
    for k in range(pick(90, 300)):
        kind = rng.choice(["tab", "tab", "ties", "ang", "int", "sum"])
        n = rng.choice([3, 6, 12, 20])
        rows, emb, kind = rows_for(rng, kind, n + 2)
        if k % 2:
            L = rng.choice([7, 8, 9, 10, 11, 13, 17])
            sizes = sorted(rng.randint(1, n) for _ in range(L - 1)) + [n]
            layers = [random_graph(rng, x, rng.choice([1, 2, 3, 5])) for x in sizes]
            ops = [{"op": "matrix"}, {"op": "craft", "ix": "a", "as": "1", "rows": list(range(n)), "craft": layers}]
        else:
            num, den = rng.choice([(5, 4), (6, 5), (9, 8), (4, 3), (3, 2)])
            cfg = seqgen.config(rng, n, num=num, den=den, nn=rng.choice([2, 4, 6]), ms=5)
            ops = [{"op": "matrix"}, {"op": "new", "rows": list(range(n)), "cfg": cfg}, {"op": "build"}, {"op": "save", "as": "1"},
                   {"op": "load", "from": "1", "ix": "a"}]
        q = [rng.randrange(n + 2) for _ in range(4)]
        ops += [{"op": "load", "from": "1", "ix": "r", "how": rng.choice(["file", "bytes"])}, {"op": "reorder", "ix": "r"}]
        ops += [{"op": "samesearch", "a": "a", "b": "r", "qs": q, "ms": ms, "k": ms, "usemap": True} for ms in (1, 4, 40)]
        ops += [{"op": "reorder_keys", "ix": "r", "keys": [rng.randint(0, 5) for _ in range(n)]}, {"op": "dump", "ix": "r"}]
        scs.append(quiet_seq("d%d" % k, kind, rows, ops, emb, threads=rng.choice([1, 4])))
    run(c, scs)
    big_reorders(c)


def big_reorders(c):
    """Indexes with more nodes than are relabelled at a time."""
    rng = c.rng
    scs = []
    shapes = [[300, 4000, 20500], [10001], [1, 9999, 10000, 25001], [20000]] + pick([], [[5, 60, 800, 11000, 45000], [10000, 10000, 30000], [120000]])
    for k, sizes in enumerate(shapes):
        n = sizes[-1] + rng.choice([0, 0, 7])
        kind = rng.choice(["int", "ang"])
        rows = seqgen.vectors(rng, n, 3, "int" if kind == "int" else "f")
        ops = [{"op": "craftlayers", "ix": "r", "as": "1", "sizes": sizes, "deg": rng.choice([3, 6]), "seed": rng.randrange(1 << 30)},
               {"op": "bigreorder", "ix": "r", "progress": rng.random() < 0.3},
               {"op": "bigreorder", "ix": "r", "keys": [rng.randrange(rng.choice([50, 1 << 30])) for _ in range(sizes[-1])],
                "progress": rng.random() < 0.3},
               {"op": "save", "as": "2", "ix": "r"}, {"op": "load", "from": "2", "ix": "s", "how": "file"},
               {"op": "bigreorder", "ix": "s"}]
        scs.append(quiet_seq("L%d" % k, kind, rows, ops, threads=rng.choice([1, 4, 8]), quiet=True))
    # lists of fixed width
    n = 10500
    cfg = seqgen.config(rng, n, nn=4, ms=3, num=15, den=1, reinsert=False, exp=0)
    scs.append(quiet_seq("Lf", "ang", seqgen.vectors(rng, n, 3, "f"),
                         [{"op": "new", "rows": list(range(n)), "cfg": cfg}, {"op": "build"}, {"op": "owned", "ix": "r"},
                          {"op": "bigreorder", "ix": "r"},
                          {"op": "bigreorder", "ix": "r", "keys": [rng.randrange(90000) for _ in range(n)]}], threads=8, quiet=True))
    run(c, scs, module="TraceReorder", ties_auto=False)


# ------------------------------------------------------------------ C18
def tied_builds(rng, sid, num, zeros=False):
    """Builds with equal distances: the graph has to be one of the possible ones."""
    scs = []
    for k in range(num):
        n = rng.randint(3, 9)
        rows = seqgen.tied(rng, n, rng.choice([1, 2, 3, 4, 6, 10]))
        if zeros:
            for i in range(n):
                if rng.random() < 0.2:
                    rows[i][i] = 900000
                for j in range(i):
                    if rng.random() < 0.25:
                        rows[i][j] = rows[j][i] = rng.choice([0, 0, 5, 12, 13])
        cfg = seqgen.config(rng, n, nn=rng.choice([1, 2, 2, 3, 3, 4, 5]), ms=rng.choice([2, 3, 5, 20]))
        ops = [{"op": "matrix"}, {"op": "new", "rows": list(range(n)), "cfg": cfg}]
        if rng.random() < 0.4:
            ops.append({"op": "partial", "n": rng.randint(1, n)})
        ops.append({"op": "build"})
        scs.append(quiet_seq("%s%d" % (sid, k), "tab", rows, ops, tierule=True))
    return scs


def c18(c):
    rng = c.rng
    small_models(c, ["InvC18"], pick(200, 2000))
    scs = hist_set(c, pick(750, 3000), 22, 12, "build", "h", kinds=("tab", "tab", "tab", "ang", "int", "sum"))
    scs += every(c, "build", "e", depth=pick(5, 6), share=pick(0.4, 0.5))
    # larger layers
    for k in range(pick(6, 20)):
        n = rng.choice([100, 200, 250]) if not THOROUGH else rng.choice([200, 500, 1000])
        rows = seqgen.table(rng, n, rng.choice(["metric", "metric", "cluster"]), zeros=rng.sample(range(n), 2), dups=[rng.sample(range(n), 5)])
        cfg = seqgen.config(rng, n, nn=rng.choice([3, 10, 20, 30]), ms=rng.choice([10, 40] if n > 100 else [40, 200]), num=rng.choice([3, 5, 15]), den=1)
        ops = [{"op": "matrix"}, {"op": "new", "rows": list(range(n)), "cfg": cfg}, {"op": "partial", "n": rng.randint(n // 2, n)}, {"op": "build"}]
        scs.append(quiet_seq("L%d" % k, "tab", rows, ops))
    # no settings at all
    for k, n in enumerate([pick(230, 260), 70]):
        cfg = {"nn": 30, "ms": 200, "num": 15, "den": 1, "mult": 15, "exp": 0, "reinsert": True, "defaults": sorted(core.DEFAULTS)}
        scs.append(quiet_seq("D%d" % k, "tab", seqgen.table(rng, n, "random"), [{"op": "matrix"}, {"op": "new", "rows": list(range(n)), "cfg": cfg}, {"op": "build"}]))
    for k in range(pick(120, 400)):
        n = rng.randint(3, 24)
        rows = seqgen.table(rng, n, rng.choice(["metric", "random", "cluster"]))
        cfg = seqgen.config(rng, n, exp=n)
        one = [{"op": "new", "rows": list(range(n)), "cfg": cfg}, {"op": "build"}]
        steps = [{"op": "new", "rows": list(range(n)), "cfg": cfg}]
        for x in layer_sizes(cfg, n):
            if rng.random() < 0.7:
                steps.append({"op": "partial", "n": x})
        steps.append({"op": "build"})
        # repeated calls at a boundary extend nothing but may reinsert, so steps are taken once
        seen, st = set(), []
        for o in steps:
            key = o.get("n", n if o["op"] == "build" else None)
            if o["op"] != "new" and key in seen:
                continue
            seen.add(key)
            st.append(o)
        ops = [{"op": "matrix"}] + one + [{"op": "owned", "ix": "a"}] + one + [{"op": "owned", "ix": "b"}, {"op": "same", "a": "a", "b": "b"}]
        exact_power = abs(round(__import__("math").log(n, cfg["mult"])) - __import__("math").log(n, cfg["mult"])) < 1e-9
        if not exact_power:
            ops += st + [{"op": "owned", "ix": "c"}, {"op": "same", "a": "a", "b": "c"}]
        scs.append(quiet_seq("s%d" % k, "tab", rows, ops))
    scs += tied_builds(rng, "t", pick(450, 1500))
    # a few larger ones, with the defaults among them
    for k in range(pick(8, 60)):
        n = rng.choice([40, 60, pick(80, 150)])
        kind = rng.choice(["tab", "ang", "sum"])
        rows, emb = (seqgen.table(rng, n, rng.choice(["metric", "cluster"])), None) if kind == "tab" else real_rows(rng, kind, n)
        cfg = seqgen.config(rng, n, nn=rng.choice([3, 10, 16, 30]), ms=rng.choice([5, 20, 200]))
        if k % 4 == 0:
            cfg.update(nn=30, ms=200, num=15, den=1, mult=15, exp=0, reinsert=True)
            seqgen.leave(rng, cfg, 0.8)
        ops = [{"op": "matrix"}, {"op": "new", "rows": list(range(n)), "cfg": cfg}, {"op": "build"}]
        scs.append(quiet_seq("b%d" % k, kind, rows, ops, emb))
    run(c, scs)
    at_scale(c, "C18")


# ------------------------------------------------------------------ C19
def c19(c):
    rng = c.rng
    small_models(c, ["InvC19", "InvC03"], pick(150, 1500), zeros=True)
    scs = hist_set(c, pick(450, 2000), 18, 10, "build", "h", kinds=("tab",), zeros=6, dups=14)
    scs += hist_set(c, pick(300, 1200), 18, 10, "build", "r", kinds=("ang", "int", "sum"), zeros=10, dups=16, threads=(1, 1, 4), seed=1)
    scs += tied_builds(rng, "t", pick(300, 1000), zeros=True)
    # only zeros, only duplicates, zeros first, last, everywhere
    k = 0
    for kind in ("ang", "int", "sum"):
        for n in (1, 2, 3, 7, 20, 40):
            for what in ("zeros", "dups", "zerofirst", "half"):
                rows, emb = real_rows(rng, kind, n)
                z = [] if kind == "sum" else [0] * len(rows[0])
                for i in range(n):
                    if what == "zeros" or (what == "zerofirst" and i == 0) or (what == "half" and i % 2 == 0):
                        rows[i] = z
                    elif what == "dups":
                        rows[i] = rows[0]
                cfg = seqgen.config(rng, n, nn=rng.choice([1, 2, 3, 5, 8]))
                ops = [{"op": "matrix"}, {"op": "new", "rows": list(range(n)), "cfg": cfg}, {"op": "partial", "n": (n + 1) // 2}, {"op": "build"},
                       {"op": "search", "qs": [0, n - 1, n // 2], "ms": 10, "k": 5},
                       {"op": "save", "as": "1"}, {"op": "load", "from": "1", "ix": "a"},
                       {"op": "search", "ix": "a", "qs": [0, n - 1, n // 2], "ms": 100, "k": 100}]
                scs.append(quiet_seq("z%d" % k, kind, rows, ops, emb, threads=rng.choice([1, 4])))
                k += 1
    run(c, scs)
