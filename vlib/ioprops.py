"""Saves on failing devices (C13) and interrupted saves (C14): harness mode io, specifications SaveFile / TraceSave."""
import itertools
from . import core, seqgen
from .seqprops import pick, real_rows

SRCS = ["builder", "borrowed", "owned", "loaded", "file", "reordered", "rw"]


def scen(rng, sid, kind, src, what, n, pad=0, **kw):
    if kind == "tab":
        rows, emb = seqgen.table(rng, n, rng.choice(["metric", "random", "cluster"])) if n else [], None
    else:
        rows, emb = real_rows(rng, kind, n) if n else ([], [[1.0, 2.0]])
    cfg = seqgen.config(rng, n)
    if rng.random() < 0.5:
        cfg.update(num=2, den=1, mult=2)
    s = {"id": sid, "kind": kind, "rows": rows, "cfg": cfg, "src": src, "what": what, "n": rng.choice([n, n, n, rng.randint(0, n)]),
         "pad": pad, "seed": rng.randrange(1 << 30)}
    if src == "rw":
        s["n"] = n
        s["cap"] = n + rng.randint(0, 6)
        k = min(n, rng.randint(0, s["cap"] - n))
        s["more"] = rng.sample(range(n), k) if n else []
        s["pad"] = 0
    if emb:
        s["emb"] = emb
    s.update(kw)
    return s


def model(c):
    for v, hdr, offs, vals, lay, buf in [("none", 2, 1, 3, 2, 2), ("none", 3, 2, 2, 3, 4), ("none", 2, 1, 5, 1, 3),
                                          ("headerfirst", 2, 1, 3, 2, 2), ("noflush", 2, 1, 3, 2, 2), ("swallow", 2, 1, 3, 2, 2), ("norestart", 2, 1, 3, 2, 2)] + pick([], [
                                           ("none", 6, 3, 8, 4, b) for b in (1, 3, 7, 20)]):
        c.model("SaveFile", "SPECIFICATION Spec\nCONSTANTS\nHDR = %d\nOFFS = %d\nVALS = %d\nLAYERS = %d\nBUF = %d\nVARIANT = \"%s\"\n"
                "CHECK_DEADLOCK FALSE\nINVARIANT OkIsComplete\nINVARIANT ErrorsReported\nINVARIANT CrashSafe\n" % (hdr, offs, vals, lay, buf, v),
                v == "none", name="SaveFile %s %s" % (v, (hdr, offs, vals, lay, buf)), workers=2)


def run(c, scs):
    by = {s["id"]: s for s in scs}
    ev = c.harness("io", scs, chunks=core.CORES)
    hs = []
    for i, e in ev.items():
        e = [dict(x, ev={"crash": "crash!", "hang": "hang!"}[x["ev"]]) if x["ev"] in ("crash", "hang") and x.get("panic") is True and "outcome" not in x else x for x in e]
        hs.append({"sc": i, "events": e})
        for x in e:
            if x["ev"] in ("run", "disk"):
                c.cnt["evaluations"] += 1
                k = c.notes.setdefault("saves", {"total": 0, "ok": 0, "errors": 0})
                k["total"] += 1
                k["ok" if x["ok"] else "errors"] += 1
            if x["ev"] == "crashes":
                c.cnt["evaluations"] += x["points"]
                k = c.notes.setdefault("crash_points", {"points": 0, "writes": 0, "images": 0})
                k["points"] += x["points"]
                k["writes"] += x["writes"]
                k["images"] += 1
    for h in hs[:3]:
        c.sample({"scenario": {k: v for k, v in by[h["sc"]].items() if k not in ("rows", "emb")}, "events": h["events"][1:4]})
    c.validate("TraceSave", hs, view="View", mode="io", scenarios=by)


def c13(c):
    rng = c.rng
    model(c)
    scs, k = [], itertools.count()
    for src in SRCS:
        for what in (["rw"] if src == "rw" else ["index", "elements"]):
            for kind in ("tab", "ang", "int", "sum"):
                for n in [0, 1, rng.randint(2, 9), rng.randint(10, 70)] + pick([rng.randint(2, 60)], [rng.randint(70, 300)] * 3):
                    if n > 70 and kind == "tab":
                        continue
                    scs.append(scen(rng, "f%d" % next(k), kind, src, what, n, pad=rng.choice([0, 0, 13]), faults=True, maxat=pick(40, 100),
                                    full=pick(8, 40), mess=pick(5, 25)))
                    scs.append(scen(rng, "d%d" % next(k), kind, src, what, n, disk=True, full=pick(5, 30)))
        if src != "rw":
            for n in (0, 1, 20):
                scs.append(scen(rng, "e%d" % next(k), "sum", src, "embeddings", n, faults=True, maxat=25))
    # images larger than the write buffer
    for i in range(pick(16, 50)):
        kind = rng.choice(["ang", "int", "sum"])
        src = rng.choice(SRCS)
        s = scen(rng, "b%d" % i, kind, src, "rw" if src == "rw" else rng.choice(["index", "elements"]), rng.choice([400, 900]), faults=True, disk=True,
                 maxat=pick(10, 40), full=pick(8, 40), mess=2)
        s["cfg"]["ms"] = 5
        s["cfg"]["nn"] = rng.choice([5, 20])
        scs.append(s)
    run(c, scs)


def c14(c):
    rng = c.rng
    model(c)
    scs, k = [], itertools.count()
    for src in SRCS:
        for n in [0, 1, 2, rng.randint(3, 9), rng.randint(10, 40), 58, 59, 60, 61, 119, 120] + pick([rng.randint(2, 60) for _ in range(3)], [rng.randint(2, 130) for _ in range(12)]):
            scs.append(scen(rng, "c%d" % next(k), "tab", src, "rw" if src == "rw" else "index", n, crash=pick(2500, 20000)))
    for i in range(pick(20, 60)):
        src = rng.choice(SRCS)
        s = scen(rng, "b%d" % i, rng.choice(["ang", "int", "sum"]), src, "rw" if src == "rw" else "index", rng.choice([400, 900]), crash=pick(300, 2000))
        s["cfg"]["ms"] = 5
        s["cfg"]["nn"] = rng.choice([5, 20, 60])
        scs.append(s)
    run(c, scs)
