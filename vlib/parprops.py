"""C08: multi-threaded builds (harness mode par; specification HnswBuild)."""
import json, os, tempfile
from . import core, seqgen
from .seqprops import pick, real_rows
from .rwprops import exact_power

INV = ["Sound", "NothingLost", "Everyone"]


def scen(rng, sid, n, T, kind="tab", how="build", runs=100, **cfg):
    c = seqgen.config(rng, n, exp=0)
    c.update(cfg)
    while exact_power(n, c["num"], c["den"]):
        c["num"] += c["den"]
    c["mult"] = c["num"] / c["den"]
    rows, emb = (seqgen.table(rng, n, rng.choice(["metric", "random", "cluster"])), None) if kind == "tab" else real_rows(rng, kind, n)
    s = {"id": sid, "kind": kind, "rows": rows, "n": n, "T": T, "cfg": c, "runs": runs, "seed": rng.randrange(1 << 30), "how": how, "ms": pick(6000, 20000)}
    if emb:
        s["emb"] = emb
    return s


def record(s, evs):
    mat = next((e for e in evs if e["ev"] == "matrix"), {"D": [], "dup": 0})
    c = s["cfg"]
    return {"sc": s["id"], "D": mat["D"], "dup": mat["dup"], "n": s["n"], "T": s["T"], "rw": s["how"] == "batch",
            "cfg": {"nn": c["nn"], "ms": c["ms"], "num": c["num"], "den": c["den"], "exp": 0, "reinsert": c["reinsert"]},
            "observed": [e["layers"] for e in evs if e["ev"] == "graph"]}


def check(c, scs, ev, spec, invs=()):
    """every observed graph has to be accepted"""
    by = {s["id"]: s for s in scs}
    recs = []
    for i, e in ev.items():
        if e[-1]["ev"] in ("crash", "hang"):
            c.violation("scenario %s: the process %s: %s" % (i, e[-1]["ev"], e[-1].get("msg", "")), {"mode": "par", "scenario": by[i]})
        for x in e:
            if x["ev"] == "failure":
                c.violation("scenario %s: a build failed: %s" % (i, x["msg"]), {"mode": "par", "scenario": by[i]})
            if x["ev"] == "stats":
                c.cnt["evaluations"] += x["runs"]
                c.notes["builds"] = c.notes.get("builds", 0) + x["runs"]
                c.notes["lock_operations"] = c.notes.get("lock_operations", 0) + x["ops"]
        recs.append(record(by[i], e))
    if not recs:
        return
    shards = max(1, min(4, len(recs) // 4))
    cfg = "SPECIFICATION %s\nCONSTANT VARIANT = \"none\"\nCHECK_DEADLOCK FALSE\n" % spec + "".join("INVARIANT %s\n" % i for i in invs)

    def one(part):
        fd, p = tempfile.mkstemp(dir=c.dir)
        with os.fdopen(fd, "w") as f:
            for h in part:
                f.write(json.dumps(core.clamp(h)) + "\n")
        rc, out = c.tlc("HnswBuild", cfg, workers=max(1, core.CORES // shards), env={"TRACE": p}, heap="6g")
        return rc, out, part

    for rc, out, part in c.pool.map(one, [recs[i::shards] for i in range(shards)]):
        if rc != 0:
            raise core.ToolError("HnswBuild: exit %d\n%s" % (rc, core.tlc_error(out)))
        c.count_states(out)
        acc = {line for line in out.splitlines() if line.startswith('"ACCEPT ')}
        ok = {tuple(json.loads(json.loads(line)[7:])) for line in acc}
        for r in part:
            c.cov["distinct_graphs"] = c.cov.get("distinct_graphs", 0) + len(r["observed"])
            for k, g in enumerate(r["observed"], 1):
                if (r["sc"], k) in ok:
                    c.cnt["traces"] += 1
                else:
                    c.violation("%s: the graph of scenario %s is not an outcome of any interleaving: %s" % (spec, r["sc"], json.dumps(g)[:300]),
                                {"mode": "par", "scenario": by[r["sc"]], "graph": g, "D": r["D"], "module": "HnswBuild"})
    c.sample({"scenario": recs[0]["sc"], "cfg": recs[0]["cfg"], "n": recs[0]["n"], "T": recs[0]["T"], "graphs": recs[0]["observed"][:3]})


def variant(c, v, n, T):
    """the model with a deviation has to be rejected"""
    rng = c.rng
    for k in range(20):
        s = scen(rng, "v", n, T, nn=2 * n, ms=n, reinsert=False, num=7, den=1)
        r = record(s, [{"ev": "matrix", "D": [[int(x * 1) for x in row] for row in s["rows"]], "dup": 12}])
        p = os.path.join(c.dir, "variant")
        with open(p, "w") as f:
            f.write(json.dumps(r) + "\n")
        c.model("HnswBuild", "SPECIFICATION Spec\nCONSTANT VARIANT = \"%s\"\nCHECK_DEADLOCK FALSE\nINVARIANT NothingLost\nINVARIANT AssertHolds\n" % v, v == "none",
                name="HnswBuild %s n=%d T=%d" % (v, n, T), env={"TRACE": p})
        break


def c08(c):
    rng = c.rng
    for v in ("none", "overwrite", "lostread"):
        variant(c, v, 3, 2)
    # small builds: the graph has to be one the specification reaches
    small = []
    for k in range(pick(160, 240)):
        n, T = rng.choice([(3, 2), (3, 3), (4, 2), (4, 3), (4, 4), (5, 2)] + pick([], [(5, 3), (6, 2)]))
        small.append(scen(rng, "o%d" % k, n, T, runs=pick(150, 600), kind=rng.choice(["tab", "tab", "tab", "ang"]), how=rng.choice(["build", "build", "batch"]),
                          nn=rng.choice([1, 2, 2, 3]), ms=rng.choice([1, 2, 3, 5]), reinsert=rng.random() < 0.4, **rng.choice([{"num": 7, "den": 1}, {"num": 7, "den": 1}, {"num": 2, "den": 1}, {"num": 5, "den": 2}])))
    check(c, small, c.harness("par", small, chunks=core.CORES), "Spec", INV)
    # larger ones: what holds of every outcome; lists that cannot overflow show any lost link
    big = []
    for k in range(pick(130, 500)):
        n = rng.choice([6, 10, 20, 40, 80])
        roomy = rng.random() < 0.6
        big.append(scen(rng, "b%d" % k, n, rng.choice([2, 3, 4, 8]), kind=rng.choice(["tab", "tab", "ang", "int", "sum"]), runs=pick(6, 25),
                        how=rng.choice(["build", "build", "batch"]), nn=2 * n if roomy else rng.choice([1, 2, 3, 5, 8]), ms=rng.choice([1, 3, 10, 40]), reinsert=rng.random() < 0.5))
    check(c, big, c.harness("par", big, chunks=core.CORES), "ContractSpec")
