"""Text input (C17): harness mode parse, specifications TextInput and Sharding."""
import itertools, json
from . import core
from .seqprops import pick

WORDS = ["a", "ab", "abc", "Ab", "AB", "b", "hello", "world", "hello,", "\u00e5", "e\u0301", "\u00e9", "\U0001F600", "\u4e16\u754c", "0", "10", "-", "\"", "\\",
         "'", "null", "", "a:b", "x y", "\u200b", "word" * 20, ".", "a\u00a0b", "\ufeff", "\u180e", "<b>", "%", " a", "ab ", "\thello", "x\ny", "b\u3000", "0\u00a0", "\u0000", "\u007f"]
WHITE = [9, 10, 11, 12, 13, 32, 0x85, 0xa0, 0x1680, 0x2000, 0x2005, 0x200a, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000]


def cps(t):
    return [ord(x) for x in t]


def line(rng, words):
    """one line's text"""
    def ws():
        return "".join(chr(rng.choice(WHITE if rng.random() < 0.3 else [32, 32, 9])) for _ in range(rng.choice([1, 1, 1, 2, 3])))
    k = rng.choice([0, 1, 2, 3, 5, 9])
    toks = [rng.choice(words) if rng.random() < 0.8 else rng.choice(["zzz", "unknown", "A", "ABC", "helloworld", "1", "\u00c5"]) for _ in range(k)]
    t = ws().join(toks) if rng.random() < 0.5 else "".join(x + ws() for x in toks)
    if rng.random() < 0.2:
        t = ws() + t
    r = rng.random()
    if r < 0.3:
        t = rng.choice(["", "id", "a", "a b", "http://x", "a:b c"]) + ":" + t
    elif r < 0.35:
        t = t + ":"
    elif r < 0.4 and t:
        i = rng.randrange(len(t))
        t = t[:i] + ":" + t[i:]
    return t


def encode(rng, lines):
    out = ""
    for i, t in enumerate(lines):
        s = json.dumps(t, ensure_ascii=rng.random() < 0.4)
        if rng.random() < 0.1:
            s = " " + s + "  "
        out += s
        if i + 1 < len(lines) or rng.random() < 0.7:
            out += "\r\n" if rng.random() < 0.15 else "\n"
    return out


def scen(rng, sid, counts, words=None, dim=None, single=False, gz=0.4, shards=(), full=False, long=0):
    words = words if words is not None else rng.sample(WORDS, rng.randint(1, len(WORDS)))
    dim = dim or rng.choice([1, 2, 3, 7, 33])
    emb = [[rng.randint(-50, 50) if rng.random() < 0.9 else 0 for _ in range(dim)] for _ in words]
    wt = "".join(json.dumps(w, ensure_ascii=rng.random() < 0.5) + "\n" for w in words)
    names, top = set(), rng.choice([1, 3, 12, 120]) + len(counts)
    while len(names) < len(counts):
        names.add(rng.choice(["part-%d", "part-%d", "p%d", "P-%d", ".h%d", "part %d", "q\u00e5%d", "part-0%d", "part-%d.json", "%d", "part-%d-x", "part-%d.gz.txt", "Part-%d", "Z%d", "z%d", "p%d.gz-1"]) % rng.randint(0, top))
    names = list(names)
    rng.shuffle(names)
    parts, table = [], []
    use = words[:40] if len(words) < 1000 else rng.sample(words, 20) + [words[-1], words[0], words[65535]]
    for n, name in zip(counts, names):
        lines = [" ".join(rng.choice(use + ["c"]) for _ in range(long)) if long else line(rng, use) for _ in range(n)]
        text = encode(rng, lines)
        p = {"text": text}
        if rng.random() < gz:
            name += ".gz"
            b = len(text.encode())
            p["cuts"] = sorted(rng.randint(0, b) for _ in range(rng.choice([0, 0, 1, 2, 3])))
        p["file"] = name
        parts.append(p)
        table.append({"name": list(name.encode()), "lines": [cps(t) for t in lines]})
    sc = {"id": sid, "wordlist": words, "wordtext": wt, "parts": parts, "emb": emb, "dim": dim, "single": single, "shards": list(shards),
          "full": full, "dirty": rng.random() < 0.3, "dir": rng.choice(["parts", "parts.gz", "in"]), "progress": rng.random() < 0.2}
    return sc, {"sc": sid, "kind": "sum", "rows": [], "emb": emb, "dim": dim, "words": [cps(w) for w in words], "parts": table}


def shards(rng, ks):
    return [dict(k=k, **rng.choice([{"stem": "", "ext": ""}, {"stem": "out", "ext": "bin"}, {"stem": "e-1", "ext": "dat"}, {"stem": "noext", "ext": ""}]))
            for k in ks]


def model(c):
    for v, n, p in [("none", 13, 15), ("floor", 5, 5), ("noclamp", 5, 7), ("again", 5, 5), ("none", pick(230, 1100), 1 if not pick(0, 1) else 120)]:
        c.model("Sharding", "SPECIFICATION Spec\nINVARIANT Whole\nCHECK_DEADLOCK FALSE\nCONSTANTS VARIANT = \"%s\" MaxN = %d MaxParts = %d" % (v, n, p),
                v == "none", "Sharding %s %d" % (v, n))


def c17(c):
    rng = c.rng
    k = itertools.count()
    model(c)
    sh = []
    # every shard count for small inputs
    for n in range(0, pick(9, 14)):
        sh.append(scen(rng, "sh%d" % n, [n], single=True, gz=0.2, shards=shards(rng, range(1, n + 4))))
    for _ in range(pick(60, 500)):
        sh.append(scen(rng, "f%d" % next(k), [rng.choice([0, 1, 2, 3, 7, 20])], single=True, shards=shards(rng, [rng.randint(1, 9)]), full=rng.random() < 0.3))
    for _ in range(pick(80, 700)):
        counts = [rng.choice([0, 0, 1, 1, 2, 3, 6]) for _ in range(rng.choice([0, 1, 2, 3, 5, 9, 14]))]
        sh.append(scen(rng, "d%d" % next(k), counts, shards=shards(rng, [rng.randint(1, 9)]), full=rng.random() < 0.2))
    # around the number of chunks the vectors are computed in
    for n in [99, 100, 101, 150, 199, 200, 201, 250] + pick([], [300, 301, 350, 399, 1000, 1001]):
        sh.append(scen(rng, "c%d" % next(k), [n], single=True, shards=shards(rng, [rng.randint(1, n + 3), 7]), dim=rng.choice([1, 3])))
    # long lines, many lines, many parts
    sh.append(scen(rng, "l%d" % next(k), [2, 1], words=["a", "ab", "b"], long=pick(1200, 6000), shards=shards(rng, [2])))
    sh.append(scen(rng, "l%d" % next(k), [pick(2600, 20000)], words=["a", "ab", "b"], dim=1, single=True, long=1, shards=shards(rng, [3, 100])))
    sh.append(scen(rng, "l%d" % next(k), [rng.choice([0, 1, 2]) for _ in range(pick(140, 700))], words=["a", "ab", "b"], dim=2, shards=shards(rng, [11])))
    # more words than 16 bits can number
    sh.append(scen(rng, "w%d" % next(k), [3, 4], words=["w%d" % i for i in range(66000)], dim=2))
    by = {s["id"]: s for s, _ in sh}
    hist = {h["sc"]: h for _, h in sh}
    ev = c.harness("parse", [s for s, _ in sh])
    hs = []
    for i, e in ev.items():
        h = dict(hist[i], events=e)
        hs.append(h)
        c.cnt["evaluations"] += len(e) - 2
    c.notes["inputs"] = {"inputs": len(hs), "parts": sum(len(h["parts"]) for h in hs), "lines": sum(len(p["lines"]) for h in hs for p in h["parts"]),
                         "compressed": sum(1 for s, _ in sh for p in s["parts"] if "cuts" in p),
                         "several members": sum(1 for s, _ in sh for p in s["parts"] if p.get("cuts")),
                         "shardings": sum(len(s["shards"]) for s, _ in sh)}
    for i in ("d%d" % (pick(60, 500) + 1), "sh3"):
        s = by[i]
        c.sample({"parts": s["parts"][:3], "words": s["wordlist"][:8], "events": [x for x in ev[i] if x["ev"] in ("parsed", "shards")][:2]})
    c.validate("TextInput", hs, mode="parse", scenarios=by, spec="TextSpec")
