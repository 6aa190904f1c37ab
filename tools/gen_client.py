"""Random scenarios for one HTTP/1 client connection."""
import random
import h1
import h1client

BADS = ["HTTP/1.1 99 x\r\n\r\n", "HTTP/1.1 20 x\r\n\r\n", "HTPP/1.1 200 OK\r\n\r\n", "HTTP/1.1 200 OK\r\nbad header\r\n\r\n",
        "HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 3\r\nContent-Length: 4\r\n\r\nabcd",
        "HTTP/1.0 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n\r\n", "HTTP/1.1 200 OK\r\nA: b\x00c\r\n\r\n",
        "HTTP/1.1 200 OK\r\nContent-Length: +3\r\n\r\nabc", "HTTP/1.1 200 OK\r\nContent-Length: 3, 4\r\n\r\nabc", "HTTP/3.1 200 OK\r\n\r\n"]


def rand_grp(R, k, last, opt, head=False):
    d = {"infs": [R.choice([100, 102, 103]) for _ in range(R.choice([0, 0, 0, 1, 2, 3]) if R.random() < opt.get("infs", 0.5) else 0)]}
    if R.random() < opt.get("bad", 0.06):
        t = R.choice([b for b in BADS if not head or not ("Length" in b or "Transfer" in b)])
        d.update(raw=t, badat=t.index("\r\n\r\n") + 4 if "\r\n\r\n" in t else len(t))
        return d
    big = opt.get("big", 0)
    d["st"] = R.choice([200, 200, 200, 404, 204, 304])
    if R.random() < 0.1:
        d["v"] = "1.0"
        d["conn"] = [R.choice(["close", "keep-alive", "Keep-Alive, x"])] if R.random() < 0.7 else []
    elif R.random() < 0.12:
        d["conn"] = [R.choice(["close", "Close", "foo, close", "keep-alive"])]
    c = R.random()
    if c < 0.45 or d.get("v") == "1.0" and c < 0.7:
        d["fr"] = "len"
        d["n"] = R.choice([0, 0, 1, 3, 20, 150, big or 400])
        if R.random() < 0.1:
            d["clrep"] = 2
    elif c < 0.85 and d.get("v") != "1.0":
        d["fr"] = "both" if R.random() < 0.1 else "chunked"
        d["te"] = R.choice(["chunked"] * 5 + ["Chunked", "gzip, chunked"])
        d["chunks"] = [R.choice([1, 2, 7, 30, big or 200]) for _ in range(R.choice([0, 1, 1, 2, 3]))]
        if R.random() < 0.25:
            d["tr"] = [["X-T", "v%d" % k]]
        if R.random() < opt.get("badchunk", 0.08) and d["chunks"]:
            d["badchunk"] = R.randrange(len(d["chunks"]))
    else:
        d["n"] = R.choice([0, 1, 10, 100, big or 300])
        if R.random() < 0.3 and d.get("v") != "1.0":
            d["fr"] = "teclose"
            if R.random() < 0.3:
                d["cl"] = R.choice([0, 3])
        else:
            d["fr"] = "close"
    return d


def rand_send(R, i, opt, nohead):
    m = R.choice(["GET", "GET", "POST", "POST", "PUT"] + ([] if nohead else ["HEAD"]))
    big = opt.get("big", 0)
    r = {"m": m, "u": "/%d" % i, "h": [], "try": R.random() < 0.8}
    if R.random() < opt.get("infcb", 0.5):
        r["inf"] = True
    if R.random() < opt.get("conn", 0.08):
        r["h"].append(["connection", "close"])
    q = []
    late = []
    if m in ("POST", "PUT") and R.random() < 0.75:
        for _ in range(R.choice([0, 1, 1, 2, 3, 5])):
            q.append(["d", R.choice([1, 3, 10, 64, 500, big or 1000])])
        n = sum(x[1] for x in q)
        body = {"q": q, "end": True}
        c = R.random()
        if c < 0.3:
            body["hint"] = "auto"
        elif c < 0.5 and n:
            r["h"].append(["content-length", str(n)])
        elif R.random() < 0.4:
            j = R.randint(0, len(q))
            late = q[j:]
            body["q"] = q = q[:j]
            body["end"] = False
            body["eos"] = False
        if R.random() < 0.2:
            body["eos"] = False
        if R.random() < opt.get("berr", 0.08):
            (late or q).append(["e"])
        r["body"] = body
        n = sum(x[1] for x in q + late if x[0] == "d")
    else:
        n = 0
        r["body"] = {"q": [], "end": True}
    c = R.random()
    r["rbody"] = "read" if c < 0.6 else R.choice(["dropnow", "drop", 0, 1, 2])
    return r, late, n


def gen(R, idx, opt):
    cfg = {"mode": R.choice(["plain"] * 6 + ["upg"] * 2 + ["nosd"])}
    cfg.update(opt.get("cfg", {}))
    if R.random() < 0.5:
        cfg["vectored"] = True
        if R.random() < 0.3:
            cfg["writev"] = R.choice([True, False])
    elif R.random() < 0.2:
        cfg["writev"] = True
    if R.random() < 0.15:
        cfg["rblip"] = True
    if R.random() < 0.15:
        cfg["wblip"] = True
    if R.random() < 0.2:
        cfg["rcap"] = R.choice([1, 2, 3, 7, 50]) if not opt.get("big") else R.choice([100, 1000, 5000])
    if R.random() < opt.get("wcap", 0.2):
        cfg["wcap"] = R.choice([1, 3, 11, 100]) if not opt.get("big") else R.choice([100, 1000, 5000])
    if R.random() < opt.get("small", 0.2):
        cfg["max_buf"] = 8192
    if R.random() < 0.2:
        cfg["extra"] = 2
    blk = False
    if R.random() < opt.get("block", 0.2):
        blk = True
        cfg["wb"] = R.choice([0, 0, 1, 10, 40, 100, 200])
    wild = R.random() < opt.get("wild", 0.5)      # sends, drops and bytes out of turn
    n = R.choice([1, 1, 2, 2, 3, 4])
    sends, reqs, lates = [], [], []
    for i in range(n):
        r, late, m = rand_send(R, i, opt, wild or R.random() < 0.5)
        sends.append(r)
        lates.append(late)
        cl = any(h[0] == "connection" for h in r["h"])
        reqs.append(dict(head=r["m"] == "HEAD", close=cl, n=m, inf=bool(r.get("inf")), valid=True))
        reqs[-1]["try"] = r["try"]
    ds = [rand_grp(R, k, k == n - 1, opt, k < n and reqs[k]["head"]) for k in range(n + (1 if wild and R.random() < 0.15 else 0))]
    wire, grps = h1client.build_grps(ds, [q["head"] for q in reqs])
    # cut the wire
    ends = [g["gs"] for g in grps[1:]] + [len(wire)]
    pieces = []
    style = R.random()
    for k, g in enumerate(grps):
        a, b = g["gs"], ends[k]
        ps = []
        while a < b:
            if style < 0.3:
                z = b - a
            elif style < 0.45:
                z = R.choice([1, 2, 3]) * (1 if b - g["gs"] < 600 else 40)
            else:
                z = R.choice([5, 20, 60, 200, 1000]) if b - g["gs"] < 6000 else R.choice([60, 1000, 5000, 20000])
            z = min(z, b - a)
            ps.append(["in", h1.lat(wire[a:a + z])])
            a += z
        pieces.append(ps)
    if wild and R.random() < 0.2 and len(pieces) > 1:      # bytes arriving ahead of their request
        k = R.randrange(len(pieces) - 1)
        if pieces[k] and pieces[k + 1]:
            m = R.choice([1, len(pieces[k + 1])])
            if R.random() < 0.5:
                pieces[k][-1] = ["in", pieces[k][-1][1] + pieces[k + 1][0][1]]
                del pieces[k + 1][0]
            else:
                pieces[k] += pieces[k + 1][:m]
                del pieces[k + 1][:m]
    steps = []
    ndrop = 0
    for i in range(max(n, len(pieces))):
        app = []
        if i < n:
            steps.append(["send", i, sends[i]])
            app += [["b", i, f] for f in lates[i]]
            if sends[i]["body"]["end"] is False and R.random() < 0.9:
                app.append(["bend", i])
            if isinstance(sends[i]["rbody"], int):
                app += [["rb", i, R.choice([1, 2])] for _ in range(R.choice([0, 1, 2]))]
                if R.random() < 0.4:
                    app.append(["rbdrop", i])
        if wild and i < n and R.random() < 0.2 and not any(q["head"] for q in reqs):
            app.insert(R.randint(0, len(app)), ["dropres", i])
        ps = pieces[i] if i < len(pieces) else []
        if i < n and R.random() < opt.get("early", 0.25):
            # the response arrives while the request body is still being produced
            both = [app, list(ps)]
        else:
            j = R.randint(0, len(app)) if not wild else len(app)
            tail = [x for x in app if x[0] in ("rb", "rbdrop")]
            head = [x for x in app if x not in tail]
            steps += head
            both = [tail, list(ps)]
        while any(both):
            x = R.choice([b for b in both if b])
            m = R.choice([1, 1, 2])
            steps += x[:m]
            del x[:m]
        if R.random() < opt.get("settle", 0.5) and i < n:
            steps += [["rb", i, 1000000]]
    # out-of-turn moves
    if wild:
        for _ in range(R.choice([0, 1, 1, 2])):
            j = R.randrange(len(steps))
            x = steps.pop(j)
            if x[0] == "in":
                # the byte order stays
                steps.insert(j, x)
                continue
            steps.insert(max(0, min(len(steps), j + R.choice([-3, -2, -1, 1, 2]))), x)
    env = []
    if blk:
        env += [["wb", R.choice([1, 7, 100, 1000])] for _ in range(R.choice([0, 1, 3]))]
    if R.random() < 0.06:
        env += [["fl", False], ["fl", True]]
        blk = True
    if R.random() < 0.05:
        env += [["werr"]]
        blk = True
    if R.random() < 0.05:
        env += [["poke"], ["poke"]]
    if wild and R.random() < 0.1:
        env += [["droptx"]]
    if wild and R.random() < 0.06:
        env += [["dropconn"]]
    if R.random() < 0.1:
        env += [["ready"]]
    for x in env:
        steps.insert(R.randint(0, len(steps)), x)
    cut = R.random() < opt.get("trunc", 0.2)
    if cut:
        j = R.randint(0, len(steps))
        rest = steps[j:]
        steps = steps[:j]
        if R.random() < 0.3 and steps and steps[-1][0] == "in":
            steps[-1] = ["in", steps[-1][1][:R.randint(0, len(steps[-1][1]))]]
        steps.append(["rerr"] if R.random() < 0.25 else ["eof"])
        steps += [x for x in rest if x[0] != "in"]
    # several stimuli at once
    out = []
    while steps:
        if R.random() < 0.12 and len(steps) > 1:
            m = R.choice([2, 2, 3, 4])
            out.append(["norun", steps[:m]])
            del steps[:m]
        else:
            out.append(steps.pop(0))
            if R.random() < 0.05:
                out.append(["steps1", R.choice([1, 2])])
    steps = out
    if R.random() < 0.9:
        steps += [["wb", -1], ["fl", True]]
        steps += [["rb", i, 1000000] for i in range(n)]
        steps += [["bend", i] for i in range(n) if not sends[i]["body"]["end"]]
        if R.random() < 0.5:
            steps.append(["droptx"])
        if R.random() < 0.6:
            steps.append(["eof"])
    sc = {"id": idx, "role": "client", "seed": 0 if R.random() < 0.3 else R.randrange(1, 1 << 30), "cfg": cfg, "steps": steps}
    return sc, reqs, grps, ds, blk
