"""Shared machinery: build the harness, run TLC, run scenarios, validate traces, report."""
import json, os, re, shutil, subprocess, sys, time, hashlib, random, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(V, "harness")
SPEC = os.path.join(V, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
THOROUGH = TIER == "thorough"
WORK = None


class ToolError(Exception):
    pass


def work():
    global WORK
    if WORK is None:
        WORK = tempfile.mkdtemp(prefix="vf-")
    return WORK


def cleanup():
    if WORK and os.path.isdir(WORK):
        shutil.rmtree(WORK, ignore_errors=True)


def build(ffi=False):
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUST_LOG"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUSTUP_TOOLCHAIN"] = "stable"
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    d = os.path.join(V, "harness-ffi") if ffi else HARNESS
    tgt = os.path.join(d, "target")
    if ffi:
        env["RUSTFLAGS"] = "--cfg hyper_unstable_ffi"
    env["CARGO_TARGET_DIR"] = tgt
    p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=d, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("harness build failed:\n" + p.stdout[-4000:])
    return os.path.join(tgt, "debug", "hvffi" if ffi else "hv")


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_harness(scenarios, ffi=False, timeout=600):
    """scenarios: list of dicts. Returns the list of event lists (same order).
    A scenario whose poll never returns, or that kills the process, yields [["abort", why]]."""
    exe = build(ffi)
    res = [None] * len(scenarios)
    todo = list(range(len(scenarios)))

    def go(idx):
        h = hashlib.sha1(repr((len(idx), time.time(), random.random())).encode()).hexdigest()[:8]
        a = os.path.join(work(), f"sc-{h}.ndjson")
        b = os.path.join(work(), f"ev-{h}.ndjson")
        with open(a, "w") as f:
            for i in idx:
                f.write(json.dumps(scenarios[i]) + "\n")
        try:
            p = subprocess.run([exe, a, b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, preexec_fn=limit)
        except subprocess.TimeoutExpired:
            raise ToolError("harness timed out")
        rc, out = p.returncode, None
        if rc == 0:
            with open(b) as f:
                out = [json.loads(l)["ev"] for l in f]
            if len(out) != len(idx):
                raise ToolError("harness returned %d results for %d scenarios" % (len(out), len(idx)))
        for x in (a, b):
            if os.path.exists(x):
                os.unlink(x)
        return rc, p.stdout, out

    hangs = 0
    while todo:
        rc, txt, out = go(todo)
        if rc == 0:
            for i, o in zip(todo, out):
                res[i] = o
            todo = []
        elif rc == 77:
            i = todo[int(txt.split("HANG ")[1].split()[0])]
            res[i] = [["abort", "hang"]]
            todo.remove(i)
            hangs += 1
            if hangs >= 4:      # enough evidence: the rest is not explored
                for j in todo:
                    res[j] = [["abort", "unexplored"]]
                todo = []
        else:
            # the process died: find one scenario that kills it
            lo = todo
            while len(lo) > 1:
                m = len(lo) // 2
                if go(lo[:m])[0] not in (0, 77):
                    lo = lo[:m]
                else:
                    lo = lo[m:]
            res[lo[0]] = [["abort", "process died"]]
            todo.remove(lo[0])
            hangs += 1
            if hangs >= 4:
                for j in todo:
                    res[j] = [["abort", "unexplored"]]
                todo = []
    return res


# ---- TLC ---------------------------------------------------------------------

def tlc(module, cfg, env=None, workers=None, args=(), timeout=800, heap="6g", cwd=None):
    """Run TLC. Returns dict(ok, out, states, distinct, printed)."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=work())
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    w = str(workers or min(8, os.cpu_count() or 4))
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-cp", JAR + ":/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
           "-metadir", meta, "-noGenerateSpecTE", "-workers", w, "-config", cfg] + list(args) + [module]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"").decode("utf8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        rc = -9
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    st, di = (0, 0)
    if m:
        st, di = [int(x.replace(",", "")) for x in m[-1]]
    else:
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        if m:
            st = int(m[-1].replace(",", ""))
    return dict(rc=rc, out=out, states=st, distinct=di, wall=time.time() - t,
                ok=(rc == 0 and "Error:" not in out))


def tlc_values(out, tag):
    """JSON payloads printed as <<"tag", "json">>."""
    res = []
    pre = '<<"%s", ' % tag
    for l in out.splitlines():
        if l.startswith(pre) and l.endswith(">>"):
            res.append(json.loads(json.loads(l[len(pre):-2])))
    return res


def model_check(module, cfg, min_distinct=1, **kw):
    """Exhaustive check of the design model. A violation here is an error of the
    specification, not of the code, hence a tool error."""
    r = tlc(module, cfg, **kw)
    if not r["ok"] or r["distinct"] < min_distinct:
        raise ToolError("model check of %s/%s failed (rc %s, %d distinct):\n%s" %
                        (module, cfg, r["rc"], r["distinct"], r["out"][-3000:]))
    return r


def validate(module, traces, chunk=4000, timeout=800, env=None):
    """Validate traces (list of {"sc":..,"ev":[..]}) with the trace spec `module`.
    Returns (per-trace list of [clause, event index], states)."""
    bad = [None] * len(traces)
    states = 0
    for base in range(0, len(traces), chunk):
        part = traces[base:base + chunk]
        fn = os.path.join(work(), "traces-%d.ndjson" % base)
        with open(fn, "w") as f:
            for t in part:
                f.write(json.dumps(t) + "\n")
        e = {"TRACES": fn}
        e.update(env or {})
        r = tlc(module + ".tla", module + ".cfg", env=e, timeout=timeout, args=["-deadlock"])
        if not r["ok"]:
            raise ToolError("trace validation %s failed: rc %s\n%s" % (module, r["rc"], r["out"][-3500:]))
        states += r["distinct"]
        for v in tlc_values(r["out"], "RES"):
            bad[base + v["t"] - 1] = v["bad"]
        os.unlink(fn)
    miss = [i for i, b in enumerate(bad) if b is None]
    if miss:
        raise ToolError("no verdict for %d traces, first %s" % (len(miss), json.dumps(traces[miss[0]])[:1500]))
    return bad, states


# ---- reporting -----------------------------------------------------------------

def known_findings(prop):
    fn = os.path.join(V, "known-findings.txt")
    r = []
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if not l.startswith("{"):
                continue
            d = json.loads(l)
            if d.get("status") == "known" and d["property"] == prop:
                r.append(d)
    return r


class Check:
    """One run of the check of one property."""

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.ntraces = 0
        self.samples = []
        self.viol = []     # (clause, scenario, trace, events)
        self.known = []
        self.legs = []
        self.distinct = set()
        self.also = []     # clauses of other properties counted as this one's

    def add_model(self, name, r):
        self.states += r["distinct"]
        self.transitions += r["states"]
        self.legs.append({"leg": name, "kind": "model check", "distinct_states": r["distinct"],
                          "transitions": r["states"], "wall_s": round(r["wall"], 1)})

    def add_traces(self, name, scenarios, traces, bad, states, raws=None, prefixes=None):
        """Record verdicts. prefixes: clause prefixes that belong to this property."""
        pre = (prefixes or [self.prop]) + self.also
        self.states += states
        self.transitions += states
        self.ntraces += len(traces)
        other = {}
        for i, b in enumerate(bad):
            self.distinct.add(hashlib.sha1(json.dumps(traces[i], sort_keys=True).encode()).hexdigest())
            for c in b:
                cl = c[0]
                if cl.startswith("ANY.") or any(cl == p or cl.startswith(p + ".") for p in pre):
                    self.viol.append((cl, c[1], scenarios[i], traces[i], raws[i] if raws else None))
                else:
                    other[cl] = other.get(cl, 0) + 1
        if traces:
            k = min(len(traces) - 1, 1 + SEED % 7)
            self.samples.append({"leg": name, "scenario": clip(scenarios[k]), "trace": clip(traces[k])})
        self.legs.append({"leg": name, "kind": "trace validation", "traces": len(traces), "states": states,
                          "clauses_of_other_properties_violated": other})

    def finish(self, extra=None, assumptions=None):
        kf = known_findings(self.prop)
        real, seen = [], {}
        for v in self.viol:
            hit = None
            for k in kf:
                if match_finding(k, v):
                    hit = k
            if hit:
                seen[hit["id"]] = hit
            else:
                real.append(v)
        for k in kf:
            # listed findings are announced whether or not this run sampled them
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.ntraces,
               "distinct_traces": len(self.distinct),
               "samples": self.samples[:6] or [{"none": True}], "legs": self.legs}
        if extra:
            cov.update(extra)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick",
              "seed": SEED, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(real),
              "assumptions": assumptions or []}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if real:
            os.makedirs(os.path.join(V, "out"), exist_ok=True)
            byc = {}
            for v in real:
                byc.setdefault(v[0], []).append(v)
            fn = os.path.join(V, "out", "%s-replay.json" % self.prop)
            with open(fn, "w") as f:
                json.dump([{"clause": c, "count": len(vs), "at_event": vs[0][1], "scenario": vs[0][2],
                            "trace": vs[0][3], "raw": vs[0][4]} for c, vs in byc.items()], f, indent=1)
            for c, vs in byc.items():
                print("violated clause %s in %d trace(s)" % (c, len(vs)))
            print("VIOLATION property=%s replay=%s" % (self.prop, fn))
            cleanup()
            sys.stdout.flush()
            return 1
        print("ok property=%s states=%d traces=%d wall=%.1fs" % (self.prop, self.states, self.ntraces, time.time() - self.t0))
        cleanup()
        return 0


def match_finding(k, v):
    if k.get("clause") and k["clause"] != v[0]:
        return False
    m = k.get("match")
    if m:
        # every listed key of the scenario's "tags" must agree
        tags = (v[2] or {}).get("tags", {})
        return all(tags.get(a) == b for a, b in m.items())
    return False


def clip(x, n=1200):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."
