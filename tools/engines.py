"""The legs the checks are made of. Each leg explores a specification module and/or binds it
to the code; a property's check is a list of legs (PLAN)."""
import json, os, random, re
import vf, h1
import gen_server, gen_client, replay_server, framing, chunked, encode, h1client, ffi, head, upgrade, h2, h2head

ASSUME = {"*": ["single-threaded scripted executor: wake-ups are observed, OS threads are not interleaved",
                "debug assertions and overflow checks of hyper are on in the harness build"]}


def scaled(n, th):
    return th if vf.THOROUGH else n


def server_random(c, n=4000, th=60000, opt=None, name="random server scenarios"):
    """Random wire inputs, application behaviours and transport faults on one server
    connection; every trace is run through H1ServerObs by TLC."""
    R = random.Random("%s/%s/%d" % (c.prop, name, vf.SEED))
    left = scaled(n, th)
    base = 0
    while left > 0:
        m = min(left, 6000)
        scs, meta = [], []
        for i in range(m):
            sc, recs, wire = gen_server.gen(R, base + i, opt or {})
            scs.append(sc)
            meta.append((recs, wire))
        ev = vf.run_harness(scs)
        trs = [h1.server_trace(s, r, e, w) for s, (r, w), e in zip(scs, meta, ev)]
        bad, st = vf.validate("H1ServerTrace", trs)
        c.add_traces(name, scs, trs, bad, st, raws=ev)
        base += m
        left -= m
        if c.viol:
            break


def client_random(c, n=4000, th=60000, opt=None, name="random client scenarios"):
    """Random requests, response bytes, application behaviours and transport faults on one
    client connection; every trace is run through H1ClientObs by TLC."""
    R = random.Random("%s/%s/%d" % (c.prop, name, vf.SEED))
    left = scaled(n, th)
    base = 0
    while left > 0:
        m = min(left, 6000)
        scs, meta = [], []
        for i in range(m):
            sc, *r = gen_client.gen(R, base + i, opt or {})
            scs.append(sc)
            meta.append(r)
        ev = vf.run_harness(scs)
        trs = [h1client.client_trace(s, q, g, d, e, b) for s, (q, g, d, b), e in zip(scs, meta, ev)]
        bad, st = vf.validate("H1ClientTrace", trs)
        c.add_traces(name, scs, trs, bad, st, raws=ev)
        base += m
        left -= m
        if c.viol:
            break


def cfg_with(src, **over):
    """a .cfg next to src with some constants replaced"""
    t = open(os.path.join(vf.SPEC, src)).read()
    for k, v in over.items():
        op = "<-" if re.match(r"^[A-Z]\w*$", v) and v not in ("TRUE", "FALSE") else "="
        t = re.sub(r"(?m)^(\s*%s\s*)(?:=|<-).*$" % k, lambda m: "%s%s %s" % (m[1], op, v), t)
    fn = os.path.join(vf.work(), "%s-%08x.cfg" % (src[:-4], random.getrandbits(32)))
    open(fn, "w").write(t)
    return fn


def model(c, module, cfg, th=None, min_distinct=100, **over):
    """Exhaustive check of a design model under the constants of a .cfg."""
    if th and vf.THOROUGH:
        over.update(th)
    r = vf.model_check(module + ".tla", cfg_with(cfg, **over), min_distinct=min_distinct)
    c.add_model("%s %s" % (module, json.dumps(over)), r)


def generate(module, cfg, num, depth=150, seed=None, **over):
    """Scenarios printed by a Gen module under TLC's simulator."""
    r = vf.tlc(module + ".tla", cfg_with(cfg, **over), workers=4,
               args=["-simulate", "num=%d" % max(1, num // 4), "-depth", str(depth), "-seed", str(seed or vf.SEED)])
    if not r["ok"]:
        raise vf.ToolError("generation with %s failed:\n%s" % (module, r["out"][-3000:]))
    return vf.tlc_values(r["out"], "SCEN"), r


def framing_server(c, over=None, th=None, limit=4000):
    """Every request head of Framing.tla, followed by a body and another request that make a
    wrong boundary visible."""
    o = dict(over or {})
    if vf.THOROUGH:
        o.update(th or {})
        limit = 40000
    r = vf.tlc("Framing.tla", cfg_with("Framing.cfg", **o), workers=1)
    if not r["ok"]:
        raise vf.ToolError("Framing.tla:\n" + r["out"][-3000:])
    c.add_model("Framing (server) %s" % json.dumps(o), r)
    R = random.Random("%s/framing/%d" % (c.prop, vf.SEED))
    cases = vf.tlc_values(r["out"], "CASE")
    if len(cases) > limit:
        short = [x for x in cases if len(x["ids"]) < 2]
        cases = short + R.sample([x for x in cases if len(x["ids"]) >= 2], limit - len(short))
    scs, meta = [], []
    for x in cases:
        vs = [v for v in x["verdicts"] if v["v"] != "reject"]
        v = vs[0] if vs else {"v": "reject", "n": 0}
        wire, recs, rej = framing.server(x, v, R)
        app = R.choice([("read", "bodyend"), ("read", "now"), ("dropnow", "now"), ("read", "bodyend")])
        q = {"body": app[0], "resp": app[1], "r": {"status": 200, "headers": [], "body": {"q": [["d", 2]], "end": True}}}
        sc = {"id": len(scs), "role": "server", "seed": R.randrange(0, 1 << 30) if R.random() < 0.7 else 0,
              "cfg": {"vectored": R.random() < 0.5, "half_close": R.random() < 0.5, "mode": R.choice(["plain", "upg"])},
              "reqs": [q, q], "case": x,
              "steps": [["in", h1.lat(b)] for b in framing.segs(wire, R, recs[0]["he"])] + [["eof"]]}
        if R.random() < 0.5:
            sc["steps"] = [["norun", sc["steps"][:-1]], ["eof"]]
        scs.append(sc)
        meta.append((wire, recs, rej, bool(vs), len(vs) < len(x["verdicts"])))
    ev = vf.run_harness(scs)
    trs = []
    for sc, (wire, recs, rej, acc, mayrej), e in zip(scs, meta, ev):
        called = any(y[0] == "call" for y in e)
        use = rej if not acc or (mayrej and not called) else recs
        trs.append(h1.server_trace(sc, use, e, wire))
    bad, st = vf.validate("H1ServerTrace", trs)
    c.add_traces("heads of Framing", scs, trs, bad, st, raws=ev)


def framing_client(c, over=None, th=None, limit=4000):
    """Every response head of Framing.tla, for each kind of request, followed by a body and the
    response to a second request. A head with several acceptable readings passes under any."""
    o = dict(Roles='{"client"}', Methods='{"GET", "POST", "HEAD", "CONNECT"}', Statuses="{200, 204, 304, 101, 404}", Versions="{TRUE, FALSE}")
    o.update(over or {})
    if vf.THOROUGH:
        o.update(th or {})
        limit = 40000
    r = vf.tlc("Framing.tla", cfg_with("Framing.cfg", **o), workers=1)
    if not r["ok"]:
        raise vf.ToolError("Framing.tla:\n" + r["out"][-3000:])
    c.add_model("Framing (client) %s" % json.dumps(o), r)
    R = random.Random("%s/framingc/%d" % (c.prop, vf.SEED))
    cases = vf.tlc_values(r["out"], "CASE")
    if len(cases) > limit:
        def near(x):
            return len(x["ids"]) < 2 or (x["st"] == 200 and x["m"] == "GET")
        short = [x for x in cases if near(x)]
        if len(short) > limit * 2 // 3:
            short = R.sample(short, limit * 2 // 3)
        cases = short + R.sample([x for x in cases if not near(x)], limit - len(short))
    scs, meta = [], []
    for x in cases:
        wire, b1, alts = framing.client(x, R)
        m = x["m"]
        spec = {"m": m, "u": "h0:80" if m == "CONNECT" else "/0", "h": [], "try": R.random() < 0.5, "rbody": "read", "body": {"q": [], "end": True}}
        if m == "POST":
            spec["body"] = {"q": [["d", 3]], "end": True, "hint": "auto"}
        sp1 = {"m": "GET", "u": "/1", "h": [], "try": True, "rbody": "read", "body": {"q": [], "end": True}}
        first = framing.segs(wire[:b1], R, alts[0][0][0]["he"])
        steps = [["send", 0, spec]] + [["in", h1.lat(b)] for b in first] + [["send", 1, sp1]] + [["in", h1.lat(wire[b1:])], ["eof"]]
        sc = {"id": len(scs), "role": "client", "seed": R.randrange(0, 1 << 30) if R.random() < 0.7 else 0,
              "cfg": {"vectored": R.random() < 0.5, "mode": R.choice(["plain", "upg"])}, "case": x, "steps": steps}
        q = dict(head=m == "HEAD", close=False, n=3 if m == "POST" else 0, inf=False, valid=True)
        q["try"] = spec["try"]
        q1 = dict(q, head=False, n=0)
        q1["try"] = True
        scs.append(sc)
        meta.append(([q, q1], alts))
    ev = vf.run_harness(scs)
    trs, of = [], []
    for i, (sc, (qs, alts), e) in enumerate(zip(scs, meta, ev)):
        for g, d in alts:
            trs.append(h1client.client_trace(sc, qs, g, d, e))
            of.append(i)
    bad, st = vf.validate("H1ClientTrace", trs)
    best = {}
    for i, t, b in zip(of, trs, bad):
        if i not in best or len(b) < len(best[i][1]):
            best[i] = (t, b)
    c.add_traces("response heads of Framing", scs, [best[i][0] for i in range(len(scs))], [best[i][1] for i in range(len(scs))], st, raws=ev)


CHUNKED = {}


def chunked_cases(c, **o):
    k = json.dumps(o)
    if k not in CHUNKED:
        r = vf.tlc("Chunked.tla", cfg_with("Chunked.cfg", **o))
        if not r["ok"]:
            raise vf.ToolError("Chunked.tla:\n" + r["out"][-3000:])
        c.add_model("Chunked: automaton against grammar", r)
        CHUNKED[k] = r
    return CHUNKED[k]


def chunked_server(c, n=2500, th=40000, limits=300, maxtokens=None):
    """Token strings of Chunked.tla (complete and at their first wrong token) as request
    bodies, and bodies around the limits."""
    o = {"MaxTokens": maxtokens} if maxtokens else {}
    r = chunked_cases(c, **o)
    R = random.Random("%s/chunked/%d" % (c.prop, vf.SEED))
    cases = vf.tlc_values(r["out"], "STR")
    dead = {}
    for x in cases:
        if not x["ok"]:
            dead.setdefault(tuple(x["s"][-2:]), []).append(x)
    todo = [x for x in cases if x["ok"]]
    todo = todo + todo
    n = scaled(n, th)
    # every way to leave the grammar is sampled, the rarer ones completely
    groups = list(dead.values())
    for g in groups:
        todo += R.sample(g, min(len(g), max(3, n // len(groups))))
    todo += [None] * scaled(limits, 4000)
    scs, meta = [], []
    nxt = "GET /1 HTTP/1.1\r\n\r\n"
    for x in todo:
        head = "POST /0 HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n"
        he = len(head)
        cfg = {"vectored": R.random() < 0.5, "half_close": R.random() < 0.5, "mode": R.choice(["plain", "upg"])}
        if x is None:
            body, segs, m, trl, bb, ok, o = chunked.build_extra(R, he)
            cfg.update(o)
        else:
            y = chunked.concretize(x, R, he)
            if y is None:
                continue
            body, segs, m, trl, bb = y
            ok = x["ok"]
        rec = dict(hs=0, he=he, be=he + len(body) if ok else -1, bb=bb, segs=segs, n=m, v10=False, cc=False, ck=False, tecl=False,
                   exp=False, bad=[], up=False, len=False, tr=bool(trl), trl=trl if ok else None, head=False, atmost=False)
        recs = [rec]
        wire = head + body
        follow = R.random()
        if ok:
            recs.append(dict(rec, hs=len(wire), he=len(wire + nxt), be=len(wire + nxt), bb=-1, segs=[], n=0, len=True, tr=False, trl=None))
            wire += nxt
        elif ok is False and follow < 0.6:
            wire += R.choice(["\r\n\r\n0\r\n\r\n", "\n\r\n0\r\n\r\n", "0\r\n\r\n", "a\r\n0\r\n\r\n", "\r\n" + h1.lat(h1.pattern(0, m, 3)) + "\r\n0\r\n\r\n"]) + nxt
        app = R.choice([("read", "bodyend"), ("read", "now"), ("read", "bodyend"), ("dropnow", "now")])
        q = {"body": app[0], "resp": app[1], "r": {"status": 200, "headers": [], "body": {"q": [["d", 2]], "end": True}}}
        b = wire.encode("latin-1")
        big = len(b) > 2000
        cut = None
        if ok and R.random() < 0.25:      # truncated: never complete
            cut = R.randint(he, he + len(body) - 1)
            b = b[:cut]
            recs = recs[:1]
            rec.update(be=he + len(body))
        sc = {"id": len(scs), "role": "server", "seed": R.randrange(0, 1 << 30) if R.random() < 0.7 else 0,
              "cfg": cfg, "reqs": [q, q],
              "steps": [["in", h1.lat(z)] for z in (framing.segs(b, R, he) if not big else [b[i:i + 1000] for i in range(0, len(b), 1000)])]}
        if cut is not None or ok is None or R.random() < 0.5:
            sc["steps"].append(["eof"])
        if R.random() < 0.5 or (x is None and ok is False):
            sc["steps"] = [["norun", sc["steps"]]]
        scs.append(sc)
        meta.append((b, recs))
    ev = vf.run_harness(scs)
    trs = [h1.server_trace(sc, recs, e, w) for sc, (w, recs), e in zip(scs, meta, ev)]
    bad, st = vf.validate("H1ServerTrace", trs)
    c.add_traces("strings of Chunked", scs, trs, bad, st, raws=ev)


def chunked_client(c, n=2500, th=40000, limits=200):
    """The same strings as bodies of responses."""
    r = chunked_cases(c)
    R = random.Random("%s/chunkedc/%d" % (c.prop, vf.SEED))
    cases = vf.tlc_values(r["out"], "STR")
    dead = {}
    for x in cases:
        if not x["ok"]:
            dead.setdefault(tuple(x["s"][-2:]), []).append(x)
    todo = [x for x in cases if x["ok"]] * 2
    n = scaled(n, th)
    for g in dead.values():
        todo += R.sample(g, min(len(g), max(3, n // len(dead))))
    todo += [None] * scaled(limits, 4000)
    scs, meta = [], []
    for x in todo:
        head = "HTTP/1.1 200 OK\r\nx-k: 0\r\nTransfer-Encoding: chunked\r\n\r\n"
        he = len(head)
        cfg = {"vectored": R.random() < 0.5, "mode": R.choice(["plain", "upg"])}
        if x is None:
            body, segs, m, trl, bb, ok, o = chunked.build_extra(R, he)
            cfg.update(o)
        else:
            y = chunked.concretize(x, R, he)
            if y is None:
                continue
            body, segs, m, trl, bb = y
            ok = x["ok"]
        g = dict(gs=0, infs=[], hs=0, he=he, be=he + len(body) if ok else -1, bb=bb, segs=segs, n=m, cd=False, len=False, tr=bool(trl),
                 close=False, up=False, bad=-1)
        gs = [g]
        wire = head + body
        b1 = len(wire)
        d = [{"st": 200, "tr": trl if ok else []}, {"st": 200}]
        tail = ""
        if ok:
            tail = "HTTP/1.1 200 OK\r\nx-k: 1\r\nContent-Length: 2\r\n\r\n" + h1.lat(h1.pattern(1, 0, 2))
            z = b1 + len(tail)
            gs.append(dict(g, gs=b1, hs=b1, he=z - 2, be=z, bb=-1, segs=[[z - 2, z]], n=2, len=True, tr=False))
        elif ok is False and R.random() < 0.6:
            wire += R.choice(["\r\n\r\n0\r\n\r\n", "\n\r\n0\r\n\r\n", "0\r\n\r\n", "a\r\n0\r\n\r\n", "\r\n" + h1.lat(h1.pattern(0, m, 3)) + "\r\n0\r\n\r\n"])
        b = wire.encode("latin-1")
        big = len(b) > 2000
        cut = None
        if ok and R.random() < 0.25:      # truncated: never complete
            cut = R.randint(he, b1 - 1)
            b = b[:cut]
            gs = gs[:1]
            tail = ""
        steps = [["in", h1.lat(z)] for z in (framing.segs(b, R, he) if not big else [b[i:i + 1000] for i in range(0, len(b), 1000)])]
        q = {"m": "GET", "h": [], "try": True, "rbody": R.choice(["read"] * 4 + ["dropnow"]), "body": {"q": [], "end": True}}
        steps = [["send", 0, dict(q, u="/0")]] + steps
        if tail:
            steps += [["send", 1, dict(q, u="/1")], ["in", tail]]
        if cut is not None or ok is None or R.random() < 0.5:
            steps.append(["eof"])
        if not tail and (x is None and ok is False or R.random() < 0.5):
            steps = [steps[0], ["norun", steps[1:]]]
        sc = {"id": len(scs), "role": "client", "seed": R.randrange(0, 1 << 30) if R.random() < 0.7 else 0, "cfg": cfg, "steps": steps}
        rq = dict(head=False, close=False, n=0, inf=False, valid=True)
        rq["try"] = True
        scs.append(sc)
        meta.append(([rq, rq] if tail else [rq], gs, d))
    ev = vf.run_harness(scs)
    trs = [h1client.client_trace(sc, rq, g, d, e) for sc, (rq, g, d), e in zip(scs, meta, ev)]
    bad, st = vf.validate("H1ClientTrace", trs)
    c.add_traces("strings of Chunked (responses)", scs, trs, bad, st, raws=ev)


def judge(module, recs, chunk=20000):
    """records judged one by one by a TLA+ module"""
    bad = [None] * len(recs)
    st = 0
    for base in range(0, len(recs), chunk):
        fn = os.path.join(vf.work(), "recs-%d.ndjson" % base)
        with open(fn, "w") as f:
            for x in recs[base:base + chunk]:
                f.write(json.dumps(x) + "\n")
        r = vf.tlc(module + ".tla", module + ".cfg", env={"TRACES": fn})
        if not r["ok"]:
            raise vf.ToolError("%s failed:\n%s" % (module, r["out"][-3000:]))
        st += r["distinct"]
        for v in vf.tlc_values(r["out"], "RES"):
            bad[base + v["t"] - 1] = [[x, 0] for x in v["bad"]]
        os.unlink(fn)
    if any(b is None for b in bad):
        raise vf.ToolError("%s: no verdict" % module)
    return bad, st


def encode_leg(c, role="server", n=4000, th=40000, name="messages of Encode", **over):
    """Every combination of what an application may supply (sampled to n), put on the wire by
    the code and judged against the framing Encode.tla derives."""
    over.setdefault("Roles", '{"%s"}' % role)
    r = vf.tlc("Encode.tla", cfg_with("Encode.cfg", **over), workers=1)
    if not r["ok"]:
        raise vf.ToolError("Encode.tla:\n" + r["out"][-3000:])
    c.add_model("Encode %s" % json.dumps(over), r)
    cases = vf.tlc_values(r["out"], "CASE")
    R = random.Random("%s/encode/%s/%d" % (c.prop, name, vf.SEED))
    n = scaled(n, th)
    if len(cases) > n:
        # plain cases first: everything near the common path is always covered
        def odd(x):
            return (x["cl"] != "none") + (x["te"] != "none") + (x["rv"] != "1.1") + x["v10"] + (x["st"] != 200) + x["body"]["err"] + (x["m"] in ("HEAD", "CONNECT"))
        near = [x for x in cases if odd(x) <= 1]
        if len(near) > n // 2:
            near = R.sample(near, n // 2)
        cases = near + R.sample(cases, n - len(near))
    scs = [getattr(encode, role)(x, i, R) for i, x in enumerate(cases)]
    ev = vf.run_harness(scs)
    recs = [{"case": x, "obs": encode.obs(x, e)} for x, e in zip(cases, ev)]
    bad, st = judge("EncodeTrace", recs)
    c.add_traces(name, scs, recs, bad, st, raws=ev)


FIELD_PROPS = {"called": ["S06", "S14", "S07", "S17", "S02"], "got": ["S02", "S13", "S14"], "rst": ["S04", "S14", "S02", "S03"],
               "heads": ["S06", "S14", "S05", "S15"], "ends": ["S06", "S14", "S09", "S15"], "c100": ["S08"],
               "wrote": ["S12", "S15", "S09"], "gone": ["S12", "S14"], "sd": ["S07", "S15", "S17", "S05"],
               "res": ["S07", "S14", "S16", "S17", "S05", "S15"]}


def server_model(c, n=1500, th=20000, name="replayed behaviours of H1Server", **over):
    """Behaviours TLC generates from the design model, replayed against the code. The trace is
    judged by the observer, and what the code shows at each quiescent point must be what some
    behaviour of the design shows."""
    n = scaled(n, th)
    if vf.THOROUGH:
        over.setdefault("MaxBatches", "16")
    scens, r = generate("H1ServerGen", "H1ServerGen.cfg", n, seed=vf.SEED * 7919 + sum(map(ord, c.prop)), **over)
    c.add_model(name + " (generation)", r)
    R = random.Random("%s/model/%d" % (c.prop, vf.SEED))
    frames = int(over.get("Frames", "1"))
    scs, runs, meta = [], [], []
    for i, x in enumerate(scens):
        sc, recs, wire, hist = replay_server.concretize(x, i, R.randrange(1, 1 << 30), frames, settle=R.random() < 0.7)
        scs.append(sc)
        meta.append((recs, wire, x, hist))
    ev = vf.run_harness(scs)
    trs = []
    for sc, (recs, wire, x, hist), e in zip(scs, meta, ev):
        t = h1.server_trace(sc, recs, e, wire, mark=True)
        runs.append({"kinds": x["kinds"], "conf": x["conf"], "hist": hist,
                     "obs": replay_server.observed(t, len(recs))})
        t["ev"] = [y for y in t["ev"] if y["e"] != "step"]
        trs.append(t)
    bad, st = vf.validate("H1ServerTrace", trs)
    div, st2 = replay("H1ServerReplay", runs, FIELD_PROPS, Frames=str(frames))
    for b, d in zip(bad, div):
        b += d
    c.add_traces(name, scs, trs, bad, st + st2, raws=ev)


def replay(module, runs, fieldprops, **over):
    """-> per run, the clauses by which it departs from every behaviour of the design"""
    out = []
    states = 0
    for base in range(0, len(runs), 4000):
        part = runs[base:base + 4000]
        fn = os.path.join(vf.work(), "runs-%d.ndjson" % base)
        with open(fn, "w") as f:
            for t in part:
                f.write(json.dumps(t) + "\n")
        r = vf.tlc(module + ".tla", cfg_with(module + ".cfg", **over), env={"TRACES": fn})
        if not r["ok"]:
            raise vf.ToolError("replay %s failed:\n%s" % (module, r["out"][-3000:]))
        states += r["distinct"]
        done = {v["t"] for v in vf.tlc_values(r["out"], "END")}
        far = {}
        for v in vf.tlc_values(r["out"], "AT"):
            t = v["t"]
            if t in done:
                continue
            if t not in far or v["i"] > far[t][0]:
                far[t] = (v["i"], [v["diff"]])
            elif v["i"] == far[t][0]:
                far[t][1].append(v["diff"])
        for j in range(len(part)):
            if j + 1 in done:
                out.append([])
                continue
            i, diffs = far.get(j + 1, (0, [["called"]]))
            d = min((x for x in diffs if x), key=len, default=["called"])
            props = sorted({p for f in d for p in fieldprops[f]})
            out.append([["%s.design(%s)" % (p, "+".join(sorted(d))), i] for p in props])
        os.unlink(fn)
    return out, states


def heads(c, n=5000, th=60000):
    """Heads of Head.tla: every one of up to two lines (sampled) and random larger ones, received
    and sent by both roles, judged against what Head.tla says passes."""
    r = vf.tlc("Head.tla", cfg_with("Head.cfg"), workers=1)
    if not r["ok"]:
        raise vf.ToolError("Head.tla:\n" + r["out"][-3000:])
    c.add_model("Head", r)
    R = random.Random("%s/heads/%d" % (c.prop, vf.SEED))
    cases = vf.tlc_values(r["out"], "CASE")
    n = scaled(n, th)
    if len(cases) > n // 2:
        cases = R.sample(cases, n // 2)
    cases += [head.random_case(R) for _ in range(n - len(cases))]
    cases = [head.complete(x, R) for x in cases]
    scs = [head.scenario(x, i, R) for i, x in enumerate(cases)]
    ev = vf.run_harness(scs)
    recs = [{"case": head.judged(x), "obs": head.obs(s, e)} for x, s, e in zip(cases, scs, ev)]
    bad, st = judge("HeadTrace", recs)
    c.add_traces("heads of Head", scs, recs, bad, st, raws=ev)


def upgrades(c, n=2500, th=30000, rand=2500):
    """Behaviours of Upgrade (both roles, every mode) and larger random ones, replayed against the
    code and judged by UpgObs."""
    n = scaled(n, th)
    r = vf.tlc("Upgrade.tla", cfg_with("Upgrade.cfg", **({"Bodies": "{0, 2}", "TailLen": "3", "MaxCredit": "2"} if vf.THOROUGH else {})))
    if not r["ok"]:
        raise vf.ToolError("Upgrade.tla:\n" + r["out"][-3000:])
    c.add_model("Upgrade: design against the observer", r)
    scens, r = generate("UpgGen", "UpgGen.cfg", n, depth=300, seed=vf.SEED * 7919 + 11)
    c.add_model("Upgrade behaviours (generation)", r)
    R = random.Random("%s/upg/%d" % (c.prop, vf.SEED))
    for name, xs in (("behaviours of Upgrade", scens), ("random upgrades", [upgrade.rand_case(R) for _ in range(scaled(rand, th))])):
        scs = [upgrade.concretize(x, i, R) for i, x in enumerate(xs)]
        ev = vf.run_harness(scs)
        trs = [upgrade.trace(s, e) for s, e in zip(scs, ev)]
        bad, st = vf.validate("UpgTrace", trs)
        c.add_traces(name, scs, trs, bad, st, raws=ev)


def ffi_exec(c, n=3000, th=30000, http=600):
    """Behaviours of FfiExec (the executor and arbitrary task code) replayed through the C API,
    and whole exchanges whose tasks are the library's own."""
    n = scaled(n, th)
    scens, r = generate("FfiGen", "FfiGen.cfg", n, depth=400, seed=vf.SEED * 7919 + 5)
    c.add_model("FfiExec behaviours (generation)", r)
    R = random.Random("%s/ffi/%d" % (c.prop, vf.SEED))
    scs = [ffi.from_hist(x["h"], 4, R, i) for i, x in enumerate(scens)]
    scs += [ffi.http(R, len(scs) + i) for i in range(scaled(http, 6000))]
    ev = vf.run_harness(scs, ffi=True)
    trs = [ffi.trace(s, e) for s, e in zip(scs, ev)]
    bad, st = vf.validate("FfiTrace", trs)
    c.add_traces("executor behaviours", scs, trs, bad, st, raws=ev)


def rbuf(c, n=15000, th=150000):
    """Operation sequences on a real ReadBuf, judged against RBuf: every sequence of three on
    buffers up to two bytes, and random longer ones."""
    import itertools
    R = random.Random("%s/rbuf/%d" % (c.prop, vf.SEED))
    ops = ["put", "raw", "initall", "initto", "dirty", "rem"]
    scs = []

    def add(cap, un, seq):
        scs.append({"id": len(scs), "role": "rbuf", "cap": cap, "uninit": un, "ops": [[o, k] for o, k in seq]})
    for cap in (0, 1, 2):
        al = [(o, k) for o in ops for k in range(cap + 2) if o not in ("initall", "rem") or k == 0]
        for seq in itertools.product(al, repeat=3 if cap < 2 or vf.THOROUGH else 2):
            for un in (True, False):
                add(cap, un, seq)
    for _ in range(scaled(n, th)):
        cap = R.choice([2, 3, 4, 5, 8])
        seq = [(R.choice(ops), min(cap + 1, R.choice([0, 1, 1, 2, 2, 3, cap, cap + 1]))) for _ in range(R.randint(3, 9))]
        add(cap, R.random() < 0.7, [(o, k if o not in ("initall", "rem") else 0) for o, k in seq])
    ev = vf.run_harness(scs)
    num = lambda ch: 0 if ch == chr(0) else 238 if ch == chr(238) else 100 + ord(ch) - 48 if "0" <= ch <= "9" else ord(ch) - 96
    trs = []
    for sc, e in zip(scs, ev):
        out = []
        for y in e:
            if y[0] == "abort":
                out.append({"op": "panic"})
                continue
            d = [alt if z is None else z for z, alt in zip(y[4], (len(y[3]), -1, sc["cap"]))]
            ret = [] if y[6] is None else [y[6]] if isinstance(y[6], int) else [num(ch) for ch in y[6]]
            out.append({"op": y[0], "n": y[1], "ok": y[2], "filled": [num(ch) for ch in y[3]], "nf": d[0], "ni": d[1], "nc": d[2], "rem": y[5], "ret": ret})
        trs.append({"sc": {"cap": sc["cap"], "uninit": sc["uninit"]}, "ev": out})
    bad, st = vf.validate("RBufTrace", trs, chunk=8000)
    c.add_traces("operation sequences of RBuf", scs, trs, bad, st, raws=ev)


SRV = "server_random"
MOD = "model"
REP = "server_model"


def h2heads(c, n=5000, th=60000, **over):
    """Every head and trailers an application may supply (H2Head), sent by the code over HTTP/2
    and judged by what may travel."""
    r = vf.tlc("H2Head.tla", cfg_with("H2Head.cfg"), workers=1)
    if not r["ok"]:
        raise vf.ToolError("H2Head.tla:\n" + r["out"][-3000:])
    c.add_model("H2Head", r)
    R = random.Random("%s/h2head/%d" % (c.prop, vf.SEED))
    cases = vf.tlc_values(r["out"], "CASE")
    cases = (cases * (th // len(cases) + 1)) if vf.THOROUGH else cases     # each time in another order of fields
    scs = [h2head.scenario(x, i, R) for i, x in enumerate(cases)]
    ev = vf.run_harness(scs)
    recs = [{"case": x, "obs": h2head.obs(x, e)} for x, e in zip(cases, ev)]
    bad, st = judge("H2HeadTrace", recs)
    c.add_traces("heads of H2Head", scs, recs, bad, st, raws=ev)


def h2_random(c, n=2000, th=30000, opt=None, name="random HTTP/2 scenarios"):
    """Random scenarios with a scripted raw-frame peer, judged by H2Obs and H2PingObs"""
    R = random.Random("%s/h2/%s/%d" % (c.prop, name, vf.SEED))
    n = scaled(n, th)
    for base in range(0, n, 5000):
        scs = [h2.gen(R, i, opt or {}) for i in range(base, min(n, base + 5000))]
        ev = vf.run_harness(scs)
        trs = [h2.trace(s, e) for s, e in zip(scs, ev)]
        bad, st = vf.validate("H2Trace", trs)
        c.add_traces(name, scs, trs, bad, st, raws=ev)


def ks(*a):
    return "{" + ", ".join('"%s"' % x for x in a) + "}"


def m1(req, resp, th=None, **over):
    """one exhaustive run of H1Server"""
    d = dict(module="H1Server", cfg="H1Server_q1.cfg", ReqKinds=ks(*req), RespKinds=ks(*resp), MaxBlock="0", Frames="9")
    d.update(over)
    d["th"] = dict(th or {})
    return (MOD, d)


def srv(opt, mods, rep, n=2500):
    return [*mods, (REP, dict(n=n, **rep)), (SRV, dict(n=n, opt=opt))]


def cli(opt, n=2000, name="random client scenarios"):
    return ("client_random", dict(n=n, opt=opt, name=name))


def h2r(opt, n=2000, name="random HTTP/2 scenarios"):
    return ("h2_random", dict(n=n, opt=opt, name=name))


TRL = dict(Decls="TrSets", Trss="TrSets", Cls='{"none"}', Tes='{"none"}', Methods='{"POST", "HEAD"}', Statuses="{200, 304}",
           Allows="{TRUE, FALSE}", RVs='{"1.1"}', V10s="{TRUE, FALSE}")
CLI = dict(Methods='{"POST", "GET", "HEAD", "CONNECT"}', Statuses="{200}")

PLAN = {
    "S01": [("framing_server", dict(limit=5000, over=dict(MaxLines="2"), th=dict(MaxLines="3"))),
            (REP, dict(n=1000, ReqKinds=ks("len2", "chk1", "get", "bad"), RespKinds=ks("empty", "len2"))),
            (SRV, dict(n=1500, opt=dict(bad=0.2)))],
    "S03": [("chunked_server", dict()), (SRV, dict(n=1500, opt=dict(bad=0.05)))]
        + [("chunked_client", dict(n=1200, limits=100))],
    "S09": [("encode_leg", dict(n=7000)), (SRV, dict(n=1500, opt=dict(bad=0.05)))],
    "S10": [("encode_leg", dict(n=5000, **TRL)), ("chunked_server", dict(n=800, limits=100))]
        + [("chunked_client", dict(n=600, limits=60))],
    "C05": [("encode_leg", dict(role="client", n=7000, **CLI)), ("encode_leg", dict(role="client", n=2000, name="trailers of Encode", **TRL))],
    "S02": srv(dict(rcap=0.6), [m1(["len2", "chk1"], ["empty"], th=dict(MaxReqs="3"), Confs="ConfsPlain")],
               dict(ReqKinds=ks("len2", "chk1", "get", "chkbad"), RespKinds=ks("empty", "len2")))
        + [("framing_client", dict(limit=1200)), cli(dict(small=0.6), n=1500)],
    "S04": srv(dict(trunc=0.6), [m1(["len2", "chk1"], ["empty"], th=dict(RespKinds=ks("empty", "chk2")), Confs="ConfsKa", MaxReqs="1")],
               dict(ReqKinds=ks("len2", "chk1", "chkbad", "exp1"), RespKinds=ks("empty", "chk2")))
        + [cli(dict(trunc=0.7), n=1500)],
    "S05": srv(dict(bad=0.7), [m1(["bad", "get", "chkbad"], ["empty", "chk2"], th=dict(MaxReqs="3"))],
               dict(ReqKinds=ks("bad", "get", "len2"), RespKinds=ks("empty", "len2", "chk2", "close1"))),
    "S06": srv(dict(bad=0.05, trunc=0.05), [m1(["get", "head"], ["len2", "close1"], th=dict(MaxBlock="1"), MaxReqs="3")],
               dict(MaxReqs="4", ReqKinds=ks("get", "head", "len2", "chk1", "oldka"))),
    "S07": srv(dict(bad=0.05, trunc=0.05), [m1(["get", "close", "old", "oldka"], ["empty", "clempty"], Confs="ConfsKa", th=dict(RespKinds=ks("empty", "clempty", "chk2")))],
               dict()),
    "S08": srv(dict(exp=0.8), [m1(["exp1", "get"], ["empty", "chk2"], th=dict(Frames="1"))],
               dict(ReqKinds=ks("exp1", "get", "chk1"), RespKinds=ks("empty", "chk2", "close1", "err"))),
    "S12": srv(dict(block=0.8, big=9000, wcap=0.4), [m1(["get"], ["chk2", "len2"], MaxBlock="1", OutMax="2", Frames="1", th=dict(MaxReqs="3"))],
               dict(Frames="2", RespKinds=ks("chk2", "len2", "fail"), MaxBlock="4"))
        + [cli(dict(block=0.8, big=9000, wcap=0.4), n=1200)],
    "S13": srv(dict(hold=3, big=30000, small=0.6), [m1(["len2", "chk1"], ["empty"], th=dict(MaxReqs="3"))],
               dict(ReqKinds=ks("len2", "chk1", "get"), RespKinds=ks("empty", "chk2")))
        + [cli(dict(small=0.6), n=1500)],
    "S14": srv(dict(), [m1(["get", "len2"], ["empty", "chk2"], th=dict(MaxBlock="1", Frames="1"))], dict())
        + [cli(dict(), n=1500)],
    "S15": srv(dict(block=0.6, wcap=0.4), [m1(["get", "len2"], ["empty", "clempty"], MaxBlock="1", MaxReqs="1", th=dict(MaxReqs="2"))],
               dict(Frames="0", MaxBlock="4"))
        + [cli(dict(block=0.6, wcap=0.4), n=1500)],
    "S16": srv(dict(hrt=0.9), [m1(["get", "bad"], ["empty"], Confs="ConfsTimer", MaxTick="4", th=dict(ReqKinds=ks("get", "bad", "len2"), MaxBlock="1"))],
               dict(Confs="ConfsTimer", ReqKinds=ks("get", "len2", "bad"), RespKinds=ks("empty", "chk2"), MaxTick="10", MaxBatches="16")),
    "S17": srv(dict(graceful=0.8), [m1(["get", "chk1"], ["empty", "chk2"], th=dict(Frames="1"))],
               dict(ReqKinds=ks("get", "len2", "chk1", "exp1"))),
    "C01": [cli(dict(wild=0.5), n=3500), cli(dict(early=0.5, berr=0.3, block=0.4), n=1500, name="failing bodies and blocked transports")],
    "C02": [("framing_client", dict(limit=4500)), cli(dict(bad=0.2), n=1500)],
    "C03": [cli(dict(bad=0.15, badchunk=0.15, conn=0.4, early=0.3), n=3500), ("framing_client", dict(limit=1500))],
    "C04": [cli(dict(infs=0.7, infcb=0.7), n=4000), cli(dict(infs=0.7, infcb=0.7, wild=0.4, trunc=0.3), n=1500, name="interim responses under faults")],
    "C06": [cli(dict(wild=0.7, infcb=0.2), n=4000), cli(dict(wild=0.5, block=0.5, berr=0.3), n=2000, name="abandonment under blocked transports")],
    "S11": [("upgrades", dict())],
    "F01": [(MOD, dict(module="FfiExec", cfg="FfiExec.cfg", th=dict(N="4", Effects='{"none", "keep", "wake", "spawn"}'))), ("ffi_exec", dict())],
    "R01": [(MOD, dict(module="RBuf", cfg="RBuf.cfg", th=dict(Caps="{0, 1, 3, 4}", MaxOps="5"))), ("rbuf", dict())],
    "C07": [cli(dict(), n=2500), (SRV, dict(n=2000, opt=dict(bad=0.05))), ("framing_client", dict(limit=1500)), ("chunked_server", dict(n=600, limits=60))],
    "S18": [("heads", dict(n=8000))],
    "X01": [h2r(dict(ka=0.95, hold=0.3), n=3000), h2r(dict(ka=0.8, adaptive=0.5, block=0.6, graceful=0.3), n=1500, name="keep-alive with adaptive windows, blocked transports and shutdowns")],
    "X02": [h2r(dict(role="server", graceful=0.95), n=3000), h2r(dict(role="server", graceful=0.9, block=0.7, connect=0.4, ka=0.3), n=1500, name="shutdowns with tunnels and blocked transports")],
    "X03": [h2r(dict(), n=2500), h2r(dict(big=0.6, small=0.5, block=0.5), n=1500, name="large bodies, small windows"), h2r(dict(prst=0.4, goaway=0.3, eof=0.4), n=1000, name="bodies cut short")],
    "X04": [("h2heads", dict())],
    "X05": [h2r(dict(role="client"), n=2500), h2r(dict(role="client", goaway=0.5, dropres=0.4, droptx=0.3, eof=0.3), n=2000, name="abandoned requests and connections going away")],
    "X06": [h2r(dict(connect=0.85), n=3000), h2r(dict(connect=0.85, prst=0.4, small=0.5, eof=0.3, block=0.4), n=1500, name="tunnels under resets and small windows")],
    "X07": [h2r(dict(small=0.8, hold=0.4), n=2500), h2r(dict(big=0.6, hold=0.5, connect=0.3), n=1500, name="large messages read slowly")],
    "X08": [h2r(dict(adaptive=0.95, big=0.6), n=3000), h2r(dict(adaptive=0.7, ka=0.5, big=0.4, block=0.4), n=1500, name="adaptive windows with keep-alive")],
    "X09": [h2r(dict(berr=0.4, prst=0.3), n=2500), h2r(dict(berr=0.4, prst=0.4, block=0.5, connect=0.3), n=1500, name="failures under blocked transports")],
}

# clauses of other properties that a property's own check reports as violations of it: those
# that state (part of) the same guarantee at another boundary
ATTR = {
    "S01": "S06.phantom S05.accepted S05.phantom S07.inbody S07.phantom S07.reused S03 S02 S04.complete S04.invented S14.uncalled S14.reader S14.bodyend",
    "S02": "S01 S03 S04 S05 S06.phantom S14.bodydata S14.bodyend S14.head S14.headunread S14.eofunread S14.unread S14.reader S13 C02 C04 S16.early S10.received C01.spurious C01.undelivered",
    "S03": "S04 S10.received S02 S01 S13.data C02 S14.reader S14.bodydata S14.bodyend",
    "S04": "S03.complete S02 C02.complete C01.hang C01.reader S14.reader S14.eofunread",
    "S05": "S01 S06 S13.head S14.headunread S14.linger S15 S09.malformed S07.linger",
    "S06": "S09.malformed S01 S05.phantom S07.phantom S07.inbody S08.bodyasrequest S14.response S14.uncalled",
    "S07": "S01 S15.noshutdown S14.closed S14.linger S14.head S14.failed S06.phantom S05.phantom S17.abandoned S14.eofopen S06.stuck",
    "S08": "S14.continue S01 S07.inbody S07.phantom S06.phantom S09.malformed S06.malformed",
    "S09": "S06.malformed S06.data S06.order S12.lost S12.data S15.cut S15.terminator S14.terminator S15.data",
    "S10": "S09.malformed S03.trailers S04.trailers",
    "S12": "S09.lost S09.data S09.malformed S14.body S14.drained S15.data S15.cut C05.data C05.lost C05.malformed S14.buffered",
    "S13": "S02.data S02.bodyend S14.unread S14.bodydata S14.bodyend S05.status S05.silent S05.missing",
    "S14": "S07.stuck S07.linger S06.stuck S13.resume S12.resume S08.missing S15.flush S15.buffered S16.missed C01.hang C01.stuck C01.undelivered C04.missed S04.hang S05.linger S17.linger S11.hang",
    "S15": "S14.buffered S14.drained S14.terminator S14.linger S14.aftershutdown S07.closed S05.aftershutdown S12.lost S09.lost S11.shutdown C05.lost",
    "S16": "S14.failed S07.failed",
    "S17": "S07 S06 S14.linger S14.failed S15.noshutdown S15.cut",
    "C01": "C03 C06 S14.hang S14.undelivered S14.request S04.hang S02.undelivered S14.reader",
    "C02": "S02 S03 S04 C07 C03 C04.final C01.spurious C01.undelivered S14.bodyend S14.bodydata",
    "C03": "C01 C06 S03.reused C02 C05.phantom S14.stray",
    "C04": "C01 C02 C03 S02.early S14.interim",
    "C05": "S12 S15.cut S15.data S15.terminator C06.terminated S14.terminator S14.body S10",
    "C07": "S04.eos S04.afterend",
    "C06": "C01 C03 S14 C05 S04.hang",
    "X01": "X05.hang X05.dropped X09.readhang X06.hang",
    "X02": "X05.uncalled X03.noend X03.stuck X03.cut X03.short X09.spurious X06.hang",
    "X03": "X07.stall X07.connstall X09.ended X09.readhang X05.wrong X04.length",
    "X05": "X09.spurious X09.bodyleak X03.head X02.extra",
    "X06": "X07.stall X07.connstall X09.spurious X03.window X05.err X05.hang",
    "X07": "X08.config X08.conn X03.readstall X06.stall",
    "X08": "X07 X01.off",
    "X09": "X05.hang X05.err X03.trunc X03.recverr X06.fail X06.denied",
}

NOTE = {"*": "The design model is checked exhaustively within small constants; the code is bound by validating traces of generated scenarios, so code behaviour outside the generated scenarios is not covered."}
NA = {}
