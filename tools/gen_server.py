"""Random scenarios for one HTTP/1 server connection (beyond the sizes TLC enumerates)."""
import random
import h1


def rand_req(R, k, last, opt):
    d = {"m": R.choice(["GET", "POST", "POST", "PUT", "HEAD"]) if not opt.get("nohead") else R.choice(["GET", "POST"]), "v": "1.1"}
    if R.random() < 0.12:
        d["v"] = "1.0"
    c = R.random()
    if c < 0.08:
        d["conn"] = [R.choice(["close", "Close", "foo, close"])]
    elif c < 0.16 or (d["v"] == "1.0" and R.random() < 0.7):
        d["conn"] = [R.choice(["keep-alive", "Keep-Alive", "foo, keep-alive"])]
    c = R.random()
    big = opt.get("big", 0)
    if c < 0.35 or d["m"] in ("HEAD",):
        d["fr"] = "none"
    elif c < 0.65 or d["v"] == "1.0":
        d["fr"] = "len"
        d["n"] = R.choice([0, 1, 2, 5, 17, 100, big or 300])
    else:
        d["fr"] = "both" if R.random() < 0.08 else "chunked"
        d["cl"] = R.choice([0, 3, 7])
        d["chunks"] = [R.choice([1, 2, 5, 16, 40, big or 200]) for _ in range(R.choice([0, 1, 1, 2, 3]))]
        if R.random() < 0.2:
            d["tr"] = [["X-T", "v%d" % k]]
        if R.random() < 0.15:
            d["ext"] = R.choice([";a=b", ";x", " ;q=\"1\""])
        if last and R.random() < 0.12:
            d["badchunk"] = R.choice([-1, 0, 1])
            d["badtext"] = R.choice(["Z\r\n", "\r\n", "-1\r\n", "5 5\r\n"])
            if d["badchunk"] >= len(d["chunks"]):
                d["badchunk"] = -1
            d["badat"] = {"Z": 1, "\r": 1, "-": 1, "5": 3}[d["badtext"][0]]
    if d["fr"] != "none" and R.random() < opt.get("exp", 0.25):
        d["exp"] = True
    if R.random() < 0.1:
        d["te_trailers"] = True
    if R.random() < 0.1 and k > 0:
        d["pre"] = "\r\n"
    return d


BADS = [("GET\r\n\r\n", [400]), ("G@T / HTTP/1.1\r\n\r\n", [400]), ("GET / HTTP/1.1\r\nContent-Length: x\r\n\r\n", [400]),
        ("GET / HTTP/1.1\r\nbad header\r\n\r\n", [400]), ("GET / HTTP/3.7\r\n\r\n", [400]),
        ("POST / HTTP/1.1\r\nTransfer-Encoding: gzip\r\n\r\n", [400]),
        ("POST / HTTP/1.1\r\nContent-Length: 3\r\nContent-Length: 4\r\n\r\nabc", [400]),
        ("POST / HTTP/1.0\r\nTransfer-Encoding: chunked\r\n\r\n", [400]),
        ("GET / HTTP/1.1\r\nA: b\x00c\r\n\r\n", [400]), (" GET / HTTP/1.1\r\n\r\n", [400])]


def rand_bad(R, opt):
    c = R.random()
    if c < 0.06:
        return {"raw": "GET /" + "a" * 65600 + " HTTP/1.1\r\n\r\n", "bad": [414, 431]}
    if c < 0.12:
        return {"raw": "GET / HTTP/1.1\r\n" + "".join("h%d: v\r\n" % i for i in range(120)) + "\r\n", "bad": [431]}
    if c < 0.16:
        return {"raw": "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", "bad": [400], "atmost": True}
    t, b = R.choice(BADS)
    return {"raw": t, "bad": b, "he": len(t) if not t.endswith("abc") else len(t) - 3}


def rand_resp(R, k, req, opt):
    r = {"status": R.choice([200, 200, 200, 404, 500, 201]), "headers": []}
    c = R.random()
    q = []
    big = opt.get("big", 0)
    for _ in range(R.choice([0, 1, 1, 2, 3, 5])):
        q.append(["d", R.choice([1, 3, 10, 64, 500, big or 1000])])
    body = {"q": q, "end": True}
    if c < 0.12:
        q[:] = []
    elif c < 0.45:
        n = sum(x[1] for x in q)
        if R.random() < 0.5:
            body["hint"] = "auto"
        else:
            r["headers"].append(["content-length", str(n)])
            body["hint"] = None
            body.pop("hint")
    if R.random() < 0.2:
        body["eos"] = False
    if R.random() < 0.08:
        r["headers"].append(["connection", R.choice(["close", "Close, foo"])])
    if R.random() < 0.05:
        # a 1.0 response without either token leaves the choice to the service
        r["version"] = "1.0"
        if not any(h[0] == "connection" for h in r["headers"]):
            r["headers"].append(["connection", R.choice(["keep-alive", "close"])])
    if R.random() < 0.06:
        q.insert(R.randint(0, len(q)), ["e"])
    r["body"] = body
    return r


def gen(R, idx, opt):
    """-> (scenario, recs, wire)"""
    cfg = {"mode": R.choice(["plain"] * 6 + ["upg"] * 2 + ["nosd"])}
    if opt.get("cfg"):
        cfg.update(opt["cfg"])
    if R.random() < 0.1:
        cfg["keep_alive"] = False
    if R.random() < 0.35:
        cfg["half_close"] = True
    if R.random() < 0.5:
        cfg["vectored"] = True
        if R.random() < 0.3:
            cfg["writev"] = R.choice([True, False])
    elif R.random() < 0.2:
        cfg["writev"] = True
    if R.random() < opt.get("hrt", 0.2):
        cfg["hrt"] = R.choice([100, 1000])
    if R.random() < 0.15:
        cfg["rblip"] = True
    if R.random() < 0.15:
        cfg["wblip"] = True
    if R.random() < opt.get("rcap", 0.2):
        cfg["rcap"] = R.choice([1, 2, 3, 7, 50]) if not opt.get("big") else R.choice([100, 1000, 5000])
    if R.random() < opt.get("wcap", 0.2):
        cfg["wcap"] = R.choice([1, 3, 11, 100]) if not opt.get("big") else R.choice([100, 1000, 5000])
    if R.random() < opt.get("small", 0.2):
        cfg["max_buf"] = 8192
    if R.random() < 0.1:
        cfg["pipeline_flush"] = True
    if R.random() < 0.2:
        cfg["extra"] = 2
    blocked = R.random() < opt.get("block", 0.3)
    if blocked:
        cfg["wb"] = R.choice([0, 0, 1, 10, 40, 100, 200])
    nreq = R.choice([1, 1, 2, 2, 3, 4, 5])
    descs = []
    for k in range(nreq):
        descs.append(rand_req(R, k, k == nreq - 1, opt))
    if R.random() < opt.get("bad", 0.12):
        descs.append(rand_bad(R, opt))
    wire, recs = h1.build_reqs(descs)
    reqs = []
    manual, held, resp = {}, {}, {}
    for k in range(len(recs)):
        b = R.choice(["read", "read", "read", "hold", "drop", "dropnow", 1] + ["hold", 1] * opt.get("hold", 0))
        mode = R.choice(["now", "now", "bodyend", "manual", "manual", "manual"] + (["err"] if R.random() < 0.25 else []))
        rs = rand_resp(R, k, descs[k], opt)
        if mode == "bodyend" and b in ("hold", 1):
            b = "read"
        if mode == "bodyend" and b == "dropnow":
            mode = "now"
        if b in ("hold", 1):
            held[k] = True
        q = {"body": b, "resp": mode}
        if mode in ("now", "bodyend"):
            q["r"] = rs
        resp[k] = rs
        if mode == "manual":
            manual[k] = rs
        reqs.append(q)
    sc = {"id": idx, "role": "server", "seed": 0 if R.random() < 0.3 else R.randrange(1, 1 << 30), "cfg": cfg, "reqs": reqs, "steps": []}
    steps = sc["steps"]
    # streaming bodies: release part of the frames later
    late = {}
    for k, rs in resp.items():
        if rs["body"]["q"] and R.random() < 0.4 and not any(h[0] == "content-length" for h in rs["headers"]) and rs["body"].get("hint") != "auto":
            j = R.randint(0, len(rs["body"]["q"]))
            late[k] = rs["body"]["q"][j:]
            rs["body"]["q"] = rs["body"]["q"][:j]
            rs["body"]["end"] = False
    # interleave deliveries, app steps, faults
    pos = 0
    cuts = []
    style = R.random()
    while pos < len(wire):
        if style < 0.25:
            z = len(wire)
        elif style < 0.4:
            z = R.choice([1, 2, 3])
            if len(wire) > 600:
                z *= 40
            if len(wire) > 6000:
                z *= 20
        else:
            z = R.choice([1, 5, 20, 60, 200, 1000, 5000]) if len(wire) < 6000 else R.choice([60, 1000, 5000, 20000])
        cuts.append(wire[pos:pos + z])
        pos += z
    pend = [["in", h1.lat(c)] for c in cuts]
    app = []
    for k in manual:
        app.append([(["respond", k, manual[k]])])
    for k in held:
        app.append([["rb", k, R.choice([1, 2, 999])] for _ in range(R.choice([1, 2]))])
        if R.random() < 0.3:
            app[-1].append(["rbdrop", k])
    for k in late:
        app.append([["b", k, f] for f in late[k]] + [["bend", k]])
    env = []
    if R.random() < opt.get("graceful", 0.12):
        env.append([["graceful"]])
    if blocked:
        env.append([["wb", R.choice([1, 7, 100, 1000])] for _ in range(R.choice([0, 1, 3]))])
    if R.random() < 0.08:
        env.append([["fl", False], ["fl", True]])
    if R.random() < 0.08:
        env.append([["sd", False], ["sd", True]])
    if "hrt" in cfg:
        env.append([["t", R.choice([10, 50, 99, 100, 101, 500, 999, 1000])] for _ in range(R.choice([1, 2, 4]))])
    if R.random() < 0.05:
        env.append([["werr"]])
    if R.random() < 0.05:
        env.append([["poke"], ["poke"]])
    if R.random() < 0.04:
        env.append([["dropconn"]])
    streams = [x for x in app + env if x]
    cutoff = None
    if R.random() < opt.get("trunc", 0.15) and pend:
        cutoff = R.randint(0, len(pend))
        pend = pend[:cutoff]
        if R.random() < 0.4 and pend:
            pend[-1] = ["in", pend[-1][1][:R.randint(0, len(pend[-1][1]))]]
        if R.random() < 0.6:
            pend.append(["rerr"] if R.random() < 0.25 else ["eof"])
    streams.append(pend)
    while any(streams):
        i = R.randrange(len(streams))
        if not streams[i]:
            continue
        n = R.choice([1, 1, 1, 3])
        take = streams[i][:n]
        del streams[i][:n]
        if len(take) > 1 and R.random() < 0.5:
            steps.append(["norun", take])
        else:
            steps += take
        if R.random() < 0.05:
            steps.append(["steps1", R.choice([1, 2])])
    # settle: everything is allowed to proceed
    if R.random() < 0.9:
        steps += [["wb", -1], ["fl", True], ["sd", True]]
        for k in range(len(recs)):
            if k in manual:
                steps.append(["respond2", k, manual[k]])
            steps.append(["rb", k, 1000000])
            if k in late:
                steps.append(["bend", k])
        if "hrt" in cfg and R.random() < 0.7:
            steps.append(["t", 2000])
        if R.random() < 0.5:
            steps += [["eof"]]
    # a manual response is given once, wherever it lands after the call
    steps[:] = expand(steps)
    return sc, recs, wire


def expand(steps):
    out = []
    for s in steps:
        if s[0] == "respond2":
            out.append(["respond", s[1], s[2]])
        else:
            out.append(s)
    return out
