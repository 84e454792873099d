"""File formats (C20): harness mode fmt, specifications IndexFormat, FormatModel, TraceFormat; golden/ holds files of an earlier build."""
import glob, itertools, json, os
from . import core, seqgen
from .seqprops import pick, real_rows


def scen(rng, sid, kind, n, **kw):
    rows, emb = (seqgen.table(rng, n, rng.choice(["metric", "random"])) if n else [], None) if kind == "tab" else \
        real_rows(rng, kind, n, zeros=rng.choice([0, 2]) if n else 0) if n else ([], [[1.0, 2.0]])
    cfg = seqgen.config(rng, n, nn=rng.choice([1, 2, 3, 4, 5, 8, 20, 60]), ms=rng.choice([1, 5, 20]))
    if rng.random() < 0.6:
        cfg.update(num=3, den=1, mult=3.0)
    s = {"id": sid, "what": "index", "kind": kind, "rows": rows, "cfg": cfg, "n": rng.choice([n, n, rng.randint(0, n)]), "reorder": rng.random() < 0.5}
    if emb:
        s["emb"] = emb
    s.update(kw)
    return s


def layers(c, num, seed):
    rc, out = c.tlc("FormatModel", "SPECIFICATION GenSpec\nINVARIANT Emit\nINVARIANT Read\nCHECK_DEADLOCK FALSE\nCONSTANTS Ids = {0} MaxLen = 0 MaxNodes = 0\n", workers=1,
                    simulate="num=%d" % num, extra=["-depth", "3"], seed=core.SEED * 31 + seed)
    ls = [json.loads(json.loads(x)[5:]) for x in out.splitlines() if x.startswith('"HIST ')]
    if not ls or "Error:" in out:
        raise core.ToolError("FormatModel:\n" + core.tlc_error(out))
    return ls


def model(c):
    ids = "{0, 1, 2, 255, 256, 65536, 16777216, 2147483647}"
    for i, (l, n) in enumerate([(5, 1), (2, 2)] + pick([], [(8, 1), (3, 2)])):
        c.model("FormatModel", "SPECIFICATION Spec\nINVARIANT Read\nCHECK_DEADLOCK FALSE\nCONSTANTS Ids = %s MaxLen = %d MaxNodes = %d\n" % (ids, l, n), name="FormatModel %d %d" % (l, n))


def c20(c):
    rng = c.rng
    k = itertools.count()
    model(c)
    scs = []
    for n in [0, 1, 2, 3, 5, 58, 59, 60, 61, 62, 119, 120, 121, 130] + [rng.randint(2, 130) for _ in range(pick(70, 300))]:
        for kind in (["tab", rng.choice(["ang", "int", "sum"])] if n < 70 else [rng.choice(["ang", "int", "sum"])]):
            scs.append(scen(rng, "i%d" % next(k), kind, n))
    for i in range(pick(3, 12)):
        scs.append(scen(rng, "n%d" % next(k), rng.choice(["ang", "int"]), 330, cfg=dict(nn=rng.choice([30, 120]), ms=150, num=4, den=1, mult=4.0, exp=0, reinsert=True)))
    # more nodes than 16 bits number, sampled
    for i in range(pick(2, 6)):
        scs.append({"id": "big%d" % i, "what": "big", "kind": "tab", "rows": [], "span": 1, "nodes": rng.choice([66000, 70001, 131000]), "deg": rng.choice([3, 8, 40]), "seed": rng.randrange(1 << 30),
                    "windows": pick(14, 60), "cfg": seqgen.config(rng, 3)})
    for i in range(pick(1, 3)):
        scs.append(scen(rng, "large%d" % i, rng.choice(["ang", "int"]), 5000, what="big", windows=pick(8, 40), seed=3,
                        cfg=dict(nn=12, ms=10, num=6, den=1, mult=6.0, exp=0, reinsert=False)))
    ls = layers(c, pick(150, 600), 1)
    while ls:
        m = rng.choice([1, 1, 2, 3])
        scs.append({"id": "r%d" % next(k), "what": "read", "rows": [], "align": rng.randrange(1, 16), "layers": sorted(ls[:m], key=lambda x: len(x["layer"]))})
        ls = ls[m:]
    golden = sorted(glob.glob(os.path.join(core.ROOT, "golden", "*.index")))
    for f in golden:
        name = os.path.basename(f)[:-6]
        w = json.load(open(f[:-6] + ".json"))
        scs.append({"id": name, "what": "golden", "kind": name.split("-")[1], "rows": [], "emb": w["emb"], "dir": os.path.dirname(f), "file": name})
    by = {s["id"]: s for s in scs}
    ev = c.harness("fmt", scs)
    hs = [{"sc": i, "events": e} for i, e in ev.items()]
    n = c.notes.setdefault("files", {})
    for h in hs:
        for e in h["events"]:
            n[e["ev"]] = n.get(e["ev"], 0) + 1
            if "bytes" in e:
                n["bytes"] = n.get("bytes", 0) + len(e["bytes"])
                c.cnt["evaluations"] += 1
    n["golden files"] = len(golden)
    if n.get("golden", 0) < 3 * len(golden) and not any(e.get("panic") for h in hs for e in h["events"]):
        raise core.ToolError("golden files were not read")
    for i in ("i3", "big0"):
        c.sample({"scenario": {a: b for a, b in by[i].items() if a not in ("rows", "emb")}, "events": [{a: (b if a != "bytes" else b[:160]) for a, b in e.items()} for e in ev[i][1:3]]})
    c.validate("TraceFormat", hs, mode="fmt", scenarios=by)
