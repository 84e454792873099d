"""Shared machinery of the checks: building the harness, running it, running TLC, evidence, verdicts."""
import concurrent.futures, glob, json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GRANNE_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4


def pick_(quick, thorough):
    return thorough if THOROUGH else quick


class ToolError(Exception):
    pass


def clamp(v):
    """JSON as TLC can read it: 32-bit integers, no null."""
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return max(-2147483647, min(2147483647, v))
    if isinstance(v, float):
        return int(v) if v == int(v) else str(v)
    if isinstance(v, list):
        return [clamp(x) for x in v]
    if isinstance(v, dict):
        return {k: clamp(x) for k, x in v.items() if x is not None}
    return v


def shorten(x, depth=0):
    """A sample for the evidence file: long lists and texts are cut."""
    if isinstance(x, dict):
        return {k: shorten(v, depth + 1) for k, v in list(x.items())[:24]}
    if isinstance(x, list):
        n = 8 if depth < 5 else 4
        r = [shorten(v, depth + 1) for v in x[:n]]
        return r + ["... %d in all" % len(x)] if len(x) > n else r
    if isinstance(x, str) and len(x) > 200:
        return x[:200] + "..."
    return x


# the documented defaults: settings with these values are sometimes not made at all ("defaults" of a configuration)
DEFAULTS = {"nn": {"nn": 30}, "ms": {"ms": 200}, "mult": {"num": 15, "den": 1}, "reinsert": {"reinsert": True}, "exp": {"exp": 0}}


def really_default(s):
    for o in [s] + [o for o in s.get("ops", []) if isinstance(o, dict)]:
        for name in ("cfg", "pre"):
            c = o.get(name)
            if isinstance(c, dict) and "defaults" in c:
                c["defaults"] = [k for k in c["defaults"] if all(c.get(x) == y for x, y in DEFAULTS[k].items())]


class Check:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="granne-verif-")
        self.rng = random.Random(SEED * 1000003 + hash_name(prop))
        self.cov = {}
        self.assumptions = []
        self.violations = []  # (what, replay dict)
        self.known = []
        self.cnt = {"states": 0, "transitions": 0, "traces": 0, "evaluations": 0}
        self.samples = []
        self.notes = {}
        self.n = 0
        self.hung = False
        self.pool = concurrent.futures.ThreadPoolExecutor(CORES)

    # ------------------------------------------------------------ harness
    _built = None

    def build(self):
        if Check._built:
            return Check._built
        h = os.path.join(ROOT, "harness")
        env = dict(os.environ, CARGO_NET_OFFLINE="true")
        r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=h, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError("the harness does not build:\n" + r.stderr[-3000:])
        Check._built = os.path.join(h, "target", "debug", "harness")
        return Check._built

    def harness(self, mode, scenarios, stall=pick_(120, 400), chunks=None, env=None):
        """Runs the scenarios (in several processes); returns {id: [events]}. A process that dies or hangs
        leaves its scenario with a final event {"ev": "crash"} (or "hang"); after a crash the others are run
        without it, after a hang the rest of the part is left out."""
        exe = self.build()
        for s in scenarios:
            really_default(s)
        chunks = chunks or min(CORES, max(1, len(scenarios) // 4))
        parts = [scenarios[i::chunks] for i in range(chunks)]
        out = {}
        for evs in self.pool.map(lambda p: self._harness1(exe, mode, p, stall, env), parts):
            out.update(evs)
        return out

    def _harness1(self, exe, mode, scs, stall, env=None):
        res, todo = {}, list(scs)
        while todo:
            self.n += 1
            d = tempfile.mkdtemp(dir=self.dir)
            i, o = os.path.join(d, "in.ndjson"), os.path.join(d, "out.ndjson")
            with open(i, "w") as f:
                for s in todo:
                    f.write(json.dumps(s) + "\n")
            os.mkdir(os.path.join(d, "scratch"))
            status = "crash"
            err = open(os.path.join(d, "err"), "w+b")
            r = subprocess.Popen([exe, mode, i, o, os.path.join(d, "scratch")], stdout=subprocess.DEVNULL, stderr=err,
                                 env=dict(os.environ, **(env or {})))
            size, since = -1, time.time()
            while r.poll() is None:
                # a process that writes no event for long hangs
                try:
                    r.wait(1)
                except subprocess.TimeoutExpired:
                    z = os.path.getsize(o) if os.path.exists(o) else 0
                    if z != size:
                        size, since = z, time.time()
                    elif time.time() - since > stall or (self.hung and time.time() - since > stall / 3):
                        self.hung = True
                        status, msg = "hang", "nothing happened for %d s" % (time.time() - since)
                        r.kill()
                        r.wait()
                        break
            if status != "hang":
                err.seek(0)
                status = "ok" if r.returncode == 0 else "crash"
                msg = "exit status %d: %s" % (r.returncode, err.read().decode(errors="replace")[-300:])
            err.close()
            evs, order = {}, []
            if os.path.exists(o):
                for line in open(o):
                    try:
                        e = json.loads(line)
                    except ValueError:
                        break
                    if e["sc"] not in evs:
                        order.append(e["sc"])
                    evs.setdefault(e["sc"], []).append(e)
            shutil.rmtree(d, ignore_errors=True)
            for s in order:
                for e in evs[s]:
                    del e["sc"]
            done = [s for s in order if evs[s][-1]["ev"] == "end"]
            for s in done:
                res[s] = evs[s]
            ids = {s["id"] for s in todo}
            left = [s for s in todo if s["id"] not in res]
            if not left:
                break
            if status == "ok":
                raise ToolError("the harness skipped scenarios")
            bad = left[0]["id"]
            if not done and len(left) == len(todo) and bad not in evs and status == "crash" and "scenario" in msg:
                raise ToolError(msg)
            res[bad] = evs.get(bad, []) + [{"ev": status, "panic": True, "msg": msg}]
            todo = left[1:]
            if status == "hang":
                break  # the others of this process are left out
        return res

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg, workers=None, env=None, simulate=None, timeout=3000 if THOROUGH else 800, extra=(), heap="6g", seed=None, modules=None):
        """Runs TLC; returns (exit code, output). modules: further modules, as text."""
        self.n += 1
        d = tempfile.mkdtemp(dir=self.dir)
        for f in glob.glob(os.path.join(SPEC, "*.tla")):
            shutil.copy(f, d)
        for m, text in (modules or {}).items():
            with open(os.path.join(d, m + ".tla"), "w") as f:
                f.write(text)
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg)
        cmd = ["java", "-Xmx" + heap, "-Xss256m", "-Djava.io.tmpdir=" + d, "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC",
               "-workers", str(workers or CORES), "-metadir", os.path.join(d, "states"), "-config", "run.cfg", "-nowarning"]
        if simulate:
            cmd += ["-simulate", simulate]
        if seed is not None:
            cmd += ["-seed", str(seed)]
        cmd += list(extra) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=d, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + module)
        shutil.rmtree(d, ignore_errors=True)
        return r.returncode, r.stdout

    def count_states(self, out):

        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            g, di = (int(x.replace(",", "")) for x in m[-1])
            self.cnt["states"] += di
            self.cnt["transitions"] += g
            return g, di
        return 0, 0

    def model(self, module, cfg, expect_ok=True, name=None, **kw):
        """Exhaustive model checking of a specification; an invariant violation here means that the
        specification itself is wrong (or the mutated model is caught), never the code."""
        rc, out = self.tlc(module, cfg, **kw)
        g, di = self.count_states(out)
        ok = rc == 0
        self.notes.setdefault("models", []).append(
            {"module": module, "name": name or module, "ok": ok, "expected_ok": expect_ok, "generated": g, "distinct": di})
        if ok != expect_ok or rc not in (0, 11, 12, 13):
            raise ToolError("model %s (%s): expected %s\n%s" % (module, name, expect_ok, out[-3000:]))
        return out

    def validate(self, module, histories, prop=None, meta=None, consts="", shards=None, heap="4g", timeout=3000 if THOROUGH else 800, mode=None,
                 scenarios=None, spec="TraceSpec", view=None, invariants=()):
        """Validates recorded histories [{sc, events, ...}] against a trace specification.
        Every history has to be accepted; a rejected one is a violation."""
        prop = prop or self.prop
        if not histories:
            return []
        cfg = "SPECIFICATION %s\nCONSTANT PROP = \"%s\"\nCHECK_DEADLOCK FALSE\n%s" % (spec, prop, consts)
        if view:
            cfg += "VIEW %s\n" % view
        for i in invariants:
            cfg += "INVARIANT %s\n" % i
        # several TLC processes with few workers each: reading and validating scale better
        shards = shards or max(1, min(4, len(histories) // 8))
        parts = [histories[i::shards] for i in range(shards)]

        def one(part):
            fd, p = tempfile.mkstemp(dir=self.dir)
            with os.fdopen(fd, "w") as f:
                for h in part:
                    f.write(json.dumps(clamp(h)) + "\n")
            rc, out = self.tlc(module, cfg, workers=max(1, CORES // shards), env={"TRACE": p}, heap=heap, timeout=timeout)
            os.remove(p)
            return rc, out, part

        bad = []
        for rc, out, part in self.pool.map(one, parts):
            acc, rej = set(), {}
            for line in out.splitlines():
                if line.startswith('"ACCEPT '):
                    acc.add(json.dumps(json.loads(json.loads(line)[7:])))
                elif line.startswith('"REJECT '):
                    try:
                        r = json.loads(json.loads(line)[7:])
                    except ValueError:
                        continue
                    rej.setdefault(json.dumps(r[0]), []).append(r[1:])
            self.count_states(out)
            err = "Error:" in out
            if err or rc != 0:
                if not (rc in (10, 11, 12, 13) and rej):
                    # an event of a shape that no step of the specification can have: find the histories
                    left = [h for h in part if json.dumps(h["sc"]) not in acc and json.dumps(h["sc"]) not in rej]
                    found = 0
                    for h, (rc1, out1, _) in zip(left[:8], self.pool.map(one, [[h] for h in left[:8]])) if senseless(out) else []:
                        if rc1 != 0 and senseless(out1):
                            found += 1
                            at = max([int(x) for x in re.findall(r"^/\\ l = (\d+)$", out1, re.M)], default=0)
                            bad.append((h, [[at, "no step of the specification fits: " + " ".join(tlc_error(out1).split())[:300]]]))
                        elif rc1 == 0 and '"REJECT' not in out1:
                            acc.add(json.dumps(h["sc"]))
                    if not found:
                        raise ToolError("TLC on %s: exit %d\n%s" % (module, rc, tlc_error(out)))
                    part = [h for h in part if json.dumps(h["sc"]) in acc or json.dumps(h["sc"]) in rej]
            for h in part:
                k = json.dumps(h["sc"])
                if k in acc:
                    self.cnt["traces"] += 1
                    continue
                r = rej.get(k, [])
                bad.append((h, r))
        for h, r in bad:
            at = max((x[0] for x in r), default=0)
            what = [x[1] for x in r if x[0] == at][:3]
            sc = None
            if scenarios is not None:
                sc = scenarios.get(h["sc"]) if isinstance(scenarios, dict) else next(
                    (s for s in scenarios if s["id"] == h["sc"]), None)
            self.violation("%s rejects history %s at event %d: %s" % (module, h["sc"], at, json.dumps(what)[:400]),
                           {"module": module, "mode": mode, "scenario": sc, "at": at, "why": what, "history": h})
        return bad

    # ------------------------------------------------------------ verdict
    def violation(self, what, replay):
        self.violations.append((what, replay))

    def sample(self, x):
        if len(self.samples) < 3:
            self.samples.append(shorten(x))

    def finish(self):
        ev = os.path.join(ROOT, "evidence")
        os.makedirs(ev, exist_ok=True)
        known = load_known()
        for f in glob.glob(os.path.join(ev, "replay-%s-*.json" % self.prop)):
            os.remove(f)
        rc, lines, nviol = 0, [], 0
        for what, rep in self.violations:
            k = next((k for k in known if k["property"] == self.prop and k["match"] in what), None)
            if k:
                if k not in self.known:
                    self.known.append(k)
                    lines.append("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
                continue
            nviol += 1
            if nviol <= 5:
                p = os.path.join(ev, "replay-%s-%d.json" % (self.prop, nviol))
                with open(p, "w") as f:
                    json.dump({"property": self.prop, "what": what, **rep}, f)
                lines.append("# " + what[:600])
                lines.append("VIOLATION property=%s replay=%s" % (self.prop, p))
            rc = 1
        cov = {}
        if self.level == "model_checking":
            cov.update(states=self.cnt["states"], transitions=self.cnt["transitions"],
                       traces_validated_against_impl=self.cnt["traces"], samples=self.samples)
        else:
            cov.update(evaluations=self.cnt["evaluations"], distinct_nontrivial=self.cov.pop("distinct_nontrivial", 0),
                       rule=self.cov.pop("rule", ""), samples=self.samples)
        cov.update(self.cov)
        cov.update(self.notes)
        rec = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
               "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": nviol}
        with open(os.path.join(ev, self.prop + ".json"), "w") as f:
            json.dump(rec, f, indent=1)
        for x in lines:
            print(x)
        print("%s: %s (%d traces accepted, %d states, %.0f s)" % (
            self.prop, "violated" if rc else "held", self.cnt["traces"], self.cnt["states"], time.time() - self.t0))
        return rc

    def close(self):
        self.pool.shutdown(wait=False)
        shutil.rmtree(self.dir, ignore_errors=True)


def senseless(out):
    """whether TLC stopped because an expression has no value (and not for lack of memory or the like)"""
    return not re.search("StackOverflow|OutOfMemory|heap space|GC overhead", out) and bool(
        re.search("Attempted to|The exception was|nonexistent|not in the domain|could not be evaluated|evaluating", out))


def tlc_error(out):
    ls = out.splitlines()
    i = next((k for k, x in enumerate(ls) if x.startswith("Error:")), 0)
    return "\n".join(x[:300] for x in ls[i:i + 12] + ["..."] + ls[-25:])


def hash_name(s):
    h = 0
    for c in s:
        h = (h * 131 + ord(c)) % 1000003
    return h


def load_known():
    p = os.path.join(ROOT, "known-findings.json")
    return json.load(open(p))["known"] if os.path.exists(p) else []


def run(prop, level, f):
    c = Check(prop, level)
    try:
        f(c)
        rc = c.finish()
    except ToolError as e:
        print("TOOL ERROR: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        c.close()
    sys.stdout.flush()
    os._exit(rc)
