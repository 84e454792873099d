#!/usr/bin/env python3
"""Wrote golden/ once, with a harness built against the base commit: mkgolden.py HARNESS"""
import json, os, random, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import seqgen
from vlib.seqprops import real_rows
rng = random.Random(4711)
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "golden")
os.makedirs(out, exist_ok=True)
scs = []
for i, (kind, n, nn, part) in enumerate([("ang", 1, 5, 1), ("int", 2, 5, 2), ("sum", 5, 3, 5), ("ang", 59, 4, 59), ("int", 60, 20, 60), ("sum", 61, 2, 61),
                                         ("ang", 119, 6, 119), ("int", 121, 5, 70), ("sum", 150, 10, 150), ("ang", 300, 30, 300), ("int", 700, 6, 700),
                                         ("sum", 40, 10, 0), ("ang", 200, 60, 180)]):
    rows, emb = real_rows(rng, kind, n)
    if kind != "sum":
        rows = [r[:5] for r in rows]
    if kind == "sum" and n > 4:
        rows[3] = [0] * 5
        rows[4] = []
    cfg = dict(seqgen.config(rng, n), nn=nn, ms=20, num=3, den=1, mult=3.0, exp=0)
    s = {"id": i, "what": "make", "kind": kind, "rows": rows, "cfg": cfg, "n": part, "dir": out, "file": "g%02d-%s-%d" % (i, kind, n)}
    s["emb"] = emb if emb else [[1.0]]
    scs.append(s)
inp = "/tmp/golden.in"
open(inp, "w").write("".join(json.dumps(s) + "\n" for s in scs))
os.makedirs("/tmp/golden.scratch", exist_ok=True)
subprocess.run([sys.argv[1], "fmt", inp, "/tmp/golden.out", "/tmp/golden.scratch"], check=True)
for l in open("/tmp/golden.out"):
    if "panic" in l:
        print(l[:300])
