"""Checks on concurrent histories of RwGranneBuilder (harness mode rw; specifications RwGranne / TraceRw)."""
import json
from . import core, seqgen
from .core import THOROUGH
from .seqprops import pick, real_rows, has_ties


def exact_power(cap, num, den):
    e = 0
    while num ** e < cap * den ** e:
        e += 1
    return cap > 1 and num ** e == cap * den ** e


def scenario(rng, sid, kind="tab", policy="random", runs=20, pool=1, big=False, zeros=False, exact=False, weights=None, nthreads=None, deep=False, workers=0):
    cap = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9] if not (big or deep) else [12, 17, 24, 33])
    nrows = cap + 5
    if kind == "tab":
        z = rng.sample(range(nrows), rng.randint(1, 2)) if zeros else ()
        d = []
        if zeros:
            free = [r for r in range(nrows) if r not in z]
            rng.shuffle(free)
            d = [free[:rng.randint(2, 4)]]
        rows, emb = seqgen.table(rng, nrows, rng.choice(["metric", "random", "cluster"]), zeros=z, dups=d), None
    else:
        rows, emb = real_rows(rng, kind, nrows)
        if zeros:
            for _ in range(2):
                rows[rng.randrange(nrows)] = [] if kind == "sum" else [0] * len(rows[0])
            for _ in range(3):
                rows[rng.randrange(nrows)] = list(rows[rng.randrange(nrows)])
    cfg = seqgen.config(rng, cap)
    if rng.random() < 0.6:
        cfg.update(num=2, den=1, mult=2)
    if deep:        # many layers
        cfg.update(num=3, den=2, mult=1.5, nn=rng.choice([2, 3, 4]))
    if exact:
        while exact_power(cap, cfg["num"], cfg["den"]):
            cap += 1
            rows_ok = cap <= nrows
            if not rows_ok:
                cap = 1
    order = list(range(nrows))
    rng.shuffle(order)
    init = order[:rng.choice([0, 0, 1, 2, rng.randint(0, cap)])][:cap]
    if rng.random() < 0.05:      # an index that is larger than the capacity from the start
        init = order[:cap + rng.choice([1, 1, 2, 3])]
    rest = order[len(init):]
    # about as many elements as fit, sometimes too many
    k = max(1, min(len(rest), rng.choice([cap - len(init), cap - len(init), cap - len(init) + 2, 3])))
    rest = rest[:k]
    nt = nthreads or rng.choice([2, 2, 3, 3, 4])
    threads = [[] for _ in range(nt)]
    w = weights or {"search": 2, "save": 1, "len": 1, "get": 1}
    names = [x for x, n in w.items() for _ in range(n)]
    i = 0
    while i < len(rest):
        t = rng.randrange(nt)
        if rng.random() < 0.5:
            threads[t].append({"op": "insert", "row": rest[i]})
            i += 1
        else:
            m = rng.choice([0, 2, 2, 3, 4, 6, 12]) if rng.random() < 0.8 else len(rest)
            threads[t].append({"op": "batch", "rows": rest[i:i + m]})
            i += m
    for _ in range(rng.choice([1, 2, 3, 4])):
        n = rng.choice(names)
        o = {"op": n}
        if n == "search":
            o.update(q=rng.randrange(nrows), ms=rng.choice([0, 1, 2, 3, 10, 100]), k=rng.choice([1, 2, 10, 100]))
        if n == "get":
            o["i"] = rng.randrange(100)
        t = rng.randrange(nt)
        threads[t].insert(rng.randint(0, len(threads[t])), o)
    # after everything: a quiet search is common when one thread ends late
    threads[0].append({"op": "search", "q": rng.randrange(nrows), "ms": rng.choice([2, 10]), "k": 10})
    if deep:
        threads[0] += [{"op": "search", "q": rng.randrange(nrows), "ms": rng.choice([1, 1, 2]), "k": 2} for _ in range(6)]
    pol = {"kind": policy, "seed": rng.randrange(1 << 30), "runs": runs, "bound": 2, "ms": pick(15000, 60000)}
    if workers:
        pol["workers"] = workers
    s = {"id": sid, "kind": kind, "rows": rows, "cfg": cfg, "cap": cap, "pool": pool, "init": init, "threads": threads, "policy": pol}
    if init and rng.random() < 0.25:
        # an index built with another configuration and continued with this one
        s["pre"] = seqgen.config(rng, len(init), nn=cfg["nn"])
        if rng.random() < 0.6:
            s["pre"].update(num=15, den=1, mult=15)
            cfg.update(num=2, den=1, mult=2)
    if emb:
        s["emb"] = emb
    return s


def split(c, s, evs):
    """The runs of a scenario as histories for TraceRw."""
    if evs[-1]["ev"] in ("crash", "hang"):
        evs = evs + [{"ev": "hang", "t": 0, "run": "x"}]
    mat = next((e for e in evs if e["ev"] == "matrix"), None)
    runs, stats = {}, None
    for e in evs:
        if e["ev"] in ("begin", "end", "matrix", "crash"):
            continue
        if e["ev"] == "stats":
            stats = e
            continue
        runs.setdefault(e.get("run", "x"), []).append(e)
    hs = []
    D = mat["D"] if mat else []
    ties = has_ties(D)
    for r, es in runs.items():
        init = es[0] if es[0]["ev"] == "init" else {"layers": []}
        es = [dict(e) for e in es if e["ev"] != "init"]
        final = es[-1] if es and es[-1]["ev"] == "final" else {}
        open_ = {}
        total = 0
        for e in es:
            e.pop("run", None)
            if e["ev"] == "call":
                open_[e["t"]] = e
                if e["op"] == "insert":
                    e["rows"] = [e.pop("row")]
                if e["op"] in ("insert", "batch"):
                    e["ids"] = []
            elif e["ev"] == "ret" and "ids" in e:
                open_[e["t"]]["ids"] = e["ids"]
                total += len(e["ids"])
        h = {"sc": "%s/%s" % (s["id"], r), "cfg": {**{k: s["cfg"][k] for k in ("nn", "ms", "num", "den", "reinsert")}, "exp": s["cap"]},
             "cap": s["cap"], "pre": "pre" in s, "threads": len(s["threads"]), "init": s["init"], "init_layers": init.get("layers", []),
             "D": D, "dup": mat["dup"] if mat else 0, "desc": mat["desc"] if mat else [], "ties": ties, "total": total,
             "det": "ref" in final, "ref": final.pop("ref", []), "answers": final.pop("answers", []),
             "queries": final.pop("queries", []), "events": es}
        hs.append(h)
    return hs, stats


OWN = {"C09": {"insert", "batch", "get", "len"}, "C10": {"search"}, "C11": {"save"}}


def panicked(evs):
    """The operations during which a panic happened."""
    open_, out = {}, set()
    for e in evs:
        if e["ev"] == "call":
            open_[e["t"]] = e["op"]
        elif e["ev"] == "ret":
            open_.pop(e["t"], None)
        elif e["ev"] == "panic":
            out.add(open_.get(e["t"]))
    return out


def run(c, scs, prop=None):
    by = {s["id"]: s for s in scs}
    ev = c.harness("rw", scs, chunks=core.CORES)
    hs, tot, steps, free, exh = [], 0, 0, 0, 0
    for i, e in ev.items():
        h, st = split(c, by[i], e)
        broken = [x for x in h if x["events"] and any(e["ev"] in ("panic", "deadlock", "hang") for e in x["events"])]
        if (prop or c.prop) != "C12" and broken:
            # failures are the matter of C12, and a call that panics also breaks the property that says what it
            # returns; what the other calls did is then only partly known
            broken = [x for x in broken if not panicked(x["events"]) & OWN.get(prop or c.prop, set())]
            c.notes["skipped_failed_runs"] = c.notes.get("skipped_failed_runs", 0) + len(broken)
            h = [x for x in h if x not in broken]
        hs += h
        if st:
            tot += st["runs"]
            steps += st["steps"]
            free += st["free"]
            exh += st["exhausted"]
    c.cnt["evaluations"] += tot
    k = c.notes.setdefault("schedules", {"scenarios": 0, "runs": 0, "distinct_histories": 0, "lock_steps": 0, "uncontrolled": 0, "exhausted": 0})
    k["scenarios"] += len(scs)
    k["runs"] += tot
    k["distinct_histories"] += len(hs)
    k["lock_steps"] += steps
    k["uncontrolled"] += free
    k["exhausted"] += exh
    for h in hs[:2]:
        c.sample({"scenario": h["sc"], "threads": by[h["sc"].split("/")[0]]["threads"], "events": h["events"][:6]})
    c.validate("TraceRw", hs, view="View", prop=prop, mode="rw",
               scenarios={h["sc"]: by[h["sc"].split("/")[0]] for h in hs})
    return hs


def mix(c, n, runs, **kw):
    rng = c.rng
    scs = []
    for k in range(n):
        pol = rng.choice(["random", "random", "pct", "dfs"])
        scs.append(scenario(rng, "s%d" % k, policy=pol, runs=runs * (3 if pol == "dfs" else 1), **kw))
    return scs


def several(c, w, zeros=0):
    rng = c.rng
    scs = mix(c, pick(1000, 3500), pick(30, 100), weights=w)
    scs += [scenario(rng, "k%d" % k, kind=rng.choice(["ang", "sum", "int"]), runs=pick(20, 60), policy=rng.choice(["random", "pct"]), weights=w)
            for k in range(pick(220, 800))]
    scs += [scenario(rng, "z%d" % k, runs=pick(20, 60), zeros=True, kind=rng.choice(["tab", "ang", "sum", "int"]), weights=w) for k in range(pick(zeros, 5 * zeros))]
    scs += [scenario(rng, "p%d" % k, policy="soft", pool=rng.choice([2, 4]), runs=pick(5, 20), big=True, weights=w) for k in range(pick(110, 400))]
    # called from the workers of a rayon pool, which has fewer threads than there are callers
    scs += [scenario(rng, "w%d" % k, kind=rng.choice(["tab", "tab", "ang", "sum"]), policy="workers", workers=rng.choice([1, 2, 2, 3]), pool=rng.choice([1, 2, 3, 4]),
                     runs=pick(5, 20), big=True, nthreads=rng.choice([3, 4, 6]), weights=w) for k in range(pick(60, 300))]
    scs += [scenario(rng, "d%d" % k, kind=rng.choice(["tab", "tab", "ang", "sum"]), deep=True, runs=pick(2, 10), nthreads=rng.choice([1, 2, 2]), weights=w)
            for k in range(pick(200, 600))]
    run(c, scs)


NORECHECK = '<< << <<"insert", 3>> >>, << <<"insert", 2>> >>, << <<"insert", 1>> >> >>'


def c09(c):
    rw_models(c, ["WithinCapacity", "IdsUnique", "IdsDense", "IdsIncrease", "RefusedOnlyWhenFull", "LayersFit"], [("norecheck", NORECHECK)], pick(6, 24))
    several(c, {"search": 2, "save": 1, "len": 3, "get": 3})


def c10(c):
    rw_models(c, ["SearchSeesElements", "LinkedAreElements"], [("layersfirst", BATCH3)], pick(6, 24))
    several(c, {"search": 8, "len": 1, "save": 1})


def c11(c):
    rw_models(c, ["SaveConsistent", "LinkedAreElements"], [("nowritelock", BATCH3), ("unlockfirst", BATCH3)], pick(6, 24))
    several(c, {"search": 1, "save": 6})


def c12(c):
    rw_models(c, ["WithinCapacity"], [("spillholding", BATCH3), ("layersfirst", BATCH3)], pick(8, 30))
    # called from the workers of a pool
    rw_model(c, BATCH3, invs=["WithinCapacity"], workers=2, live=True)
    rw_model(c, BATCH3, invs=RW_INV, workers=2, variant="steal", ok=False)
    several(c, {"search": 2, "save": 3, "len": 2, "get": 2}, zeros=40)


# ------------------------------------------------------------------ the lock-level model
def programs(rng, nt, maxops):
    """small programs; every save competes with batches that spill into new layers"""
    ps = []
    for _ in range(nt):
        p = []
        for _ in range(rng.randint(1, maxops)):
            p.append(rng.choice(['<<"insert", 1>>', '<<"insert", 2>>', '<<"insert", 4>>', '<<"search">>', '<<"save">>', '<<"len">>']))
        ps.append("<<" + ", ".join(p) + ">>")
    return "<<" + ", ".join(ps) + ">>"


RW_INV = ["WithinCapacity", "IdsUnique", "IdsDense", "IdsIncrease", "RefusedOnlyWhenFull", "SearchSeesElements", "LinkedAreElements", "SaveConsistent", "LayersFit"]


def rw_model(c, ps, cap=4, sizes="<<1, 2, 4>>", initial=0, variant="none", invs=RW_INV, live=False, ok=True, name=None, workers=0):
    mod = "MCRwGranne"
    body = "---- MODULE %s ----\nEXTENDS RwGranne\nP == %s\nS == %s\n====\n" % (mod, ps, sizes)
    cfg = "SPECIFICATION %s\nCONSTANTS\n Programs <- P\n LayerSizes <- S\n Cap = %d\n Initial = %d\n Variant = \"%s\"\n Workers = %d\n" % (
        "FairSpec" if live else "Spec", cap, initial, variant, workers)
    cfg += "".join("INVARIANT %s\n" % i for i in invs)
    if live:
        cfg += "PROPERTY Terminates\n"
    return c.model(mod, cfg, ok, name=name or "RwGranne %s %s%s" % (variant, ps, " %d workers" % workers if workers else ""), modules={mod: body})


BATCH3 = '<< << <<"insert", 3>> >>, << <<"insert", 2>>, <<"search">> >>, << <<"save">> >> >>'


def rw_models(c, invs, variants, n):
    rng = c.rng
    rw_model(c, BATCH3, invs=invs, live=not THOROUGH)
    for v, ps in variants:
        rw_model(c, ps, variant=v, invs=RW_INV, ok=False)
    for _ in range(n):
        init = rng.choice([0, 0, 1, 2])
        nt, most, live = rng.choice(pick([(3, 2, False)], [(3, 2, True), (3, 3, False), (4, 2, False)]))
        ps = programs(rng, nt, most)
        while ps.count('"') > 2 * 8:        # the state space of nine operations takes too long
            ps = programs(rng, nt, most)
        rw_model(c, ps, initial=init, invs=invs, live=live)
