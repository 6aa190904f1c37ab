"""Upgrades: scenarios from UpgGen's behaviours and larger random ones, and the projection of
what the harness recorded onto the events of UpgObs."""
import h1
from h1 import lat, unlat, pattern


def units(b, n, R):
    """b cut into n non-empty pieces"""
    n = min(n, len(b))
    if n <= 1:
        return [b] if b else []
    cuts = sorted(R.sample(range(1, len(b)), n - 1))
    return [b[x:y] for x, y in zip([0] + cuts, cuts + [len(b)])]


def rand_case(R):
    role = R.choice(["server", "client"])
    a = R.random() < 0.8
    w = a if role == "client" else R.random() < 0.9
    bl = 0 if role == "client" else R.choice([0, 0, 1, 3])
    mode = R.choice(["upg"] * 4 + ["plain", "nosd"])
    hist = []
    weights = [("in", 8), ("respond", 4), ("uw", 4), ("ur", 5), ("rb", 2), ("block", 1), ("unblock", 1), ("eof", 1), ("us", 0.6), ("ud", 0.4), ("udc", 0.4), ("rbdrop", 0.3),
               ("werr", 0.15), ("rerr", 0.15), ("dropconn", 0.15), ("bq", 2), ("dropres", 0.15), ("wcap", 0.5)]
    for _ in range(R.choice([6, 10, 16, 24])):
        b = []
        for _ in range(R.choice([1, 1, 1, 2, 3])):
            x = R.choices([p[0] for p in weights], [p[1] for p in weights])[0]
            b.append([x, R.choice([1, 1, 2, 3, 6]) if x in ("in", "uw", "ur") else 0])
        hist.append(b)
    if R.random() < 0.8:
        # let it finish
        hist += [[["unblock", 0]], [["rb", 0]], [["bq", 1]], [["respond", 0]], [["in", 40]], [["ur", 100]], [["uw", 2]]]
        hist += R.choice([[], [[["eof", 0]]], [[["us", 0]], [["eof", 0]]], [[["udc", 0]]]])
    return {"role": role, "bl": bl, "mode": mode, "wants": w, "agree": a, "hist": hist, "rand": True, "hold": R.random() < 0.5}


def concretize(x, i, R):
    role, srv = x["role"], x["role"] == "server"
    rand = x.get("rand", False)
    k = 1 if R.random() < 0.35 else 0
    big = rand and R.random() < 0.2
    cfg = {"mode": x["mode"], "vectored": R.random() < 0.5}
    if R.random() < 0.2:
        cfg["half_close"] = True
    if srv and R.random() < 0.3:
        cfg["pipeline_flush"] = True
    if rand and R.random() < 0.2:
        cfg["writev"] = R.random() < 0.5
    wants, agree = x["wants"], x["agree"]
    connect = R.random() < 0.35 and x["bl"] == 0
    pre = b""
    tail = b""
    if x.get("rand") or agree or srv:
        tail = pattern(7, 0, R.choice([3, 7, 40, 300] + ([9000, 40000] if big else [])))
    body = pattern(k, 0, 0)
    if srv:
        if k:
            pre = b"GET /p HTTP/1.1\r\n\r\n"
        n = R.choice([2, 9, 100] + ([20000] if big else [])) if x["bl"] else 0
        m = "CONNECT" if connect and (wants or R.random() < 0.5) else R.choice(["GET", "GET", "POST"])
        if m == "CONNECT":
            wants = True
        v = "1.1" if wants or R.random() < 0.5 else "1.0"
        hd = []
        if m != "CONNECT" and (wants or v == "1.0"):
            hd = [("Upgrade", R.choice(["websocket", "foo/1, bar"])), ("Connection", R.choice(["upgrade", "Upgrade, keep-alive", "keep-alive"]))]
        if n:
            ch = R.random() < 0.4 and v == "1.1"
            hd.append(("Transfer-Encoding", "chunked") if ch else ("Content-Length", str(n)))
            p = pattern(k, 0, n)
            body = (b"".join(b"%x\r\n%s\r\n" % (len(q), q) for q in units(p, 2, R)) + b"0\r\n\r\n") if ch else p
        R.shuffle(hd)
        head = ("%s %s HTTP/%s\r\n" % (m, "h:1" if m == "CONNECT" else "/c", v)).encode() + b"".join(("%s: %s\r\n" % h).encode() for h in hd) + b"\r\n"
        if not (wants and agree):
            # what follows is another request, or nothing
            tail = b"GET /n HTTP/1.1\r\n\r\n"
    else:
        m = "CONNECT" if connect else R.choice(["GET", "POST"])
        if k:
            pre = b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok"
        head = b""
        if R.random() < 0.2:
            head = R.choice([b"HTTP/1.1 100 Continue\r\n\r\n", b"HTTP/1.1 103 Early Hints\r\nLink: x\r\n\r\n"])
        if agree:
            st = R.choice([200, 200, 201, 299]) if connect else 101
            head += b"HTTP/1.1 %d Sure\r\nUpgrade: foo\r\n" % st
            if R.random() < 0.3:
                head += b"Connection: upgrade\r\n"
            head += b"\r\n"
        else:
            st = R.choice([400, 407, 502]) if connect else R.choice([200, 204, 400, 426])
            head += b"HTTP/1.1 %d No\r\nUpgrade: foo\r\n" % st + (b"" if st == 204 else b"Content-Length: 0\r\n") + b"\r\n"
            tail = b""
    if m == "CONNECT" and agree:
        pass
    pieces = units(head, 2, R) + (units(body, x["bl"], R) if body else []) + units(tail, 3 if not rand else R.choice([1, 3, 8]), R)
    he = len(pre) + len(head) + len(body)
    steps = []
    reqs = []
    rspec = None
    if srv:
        if k:
            reqs.append({"body": "read", "resp": "now", "r": {"status": 200}})
        r = {"status": R.choice([101] if m != "CONNECT" else [200, 200, 204, 299]) if agree else R.choice([200, 403, 204] if m != "CONNECT" else [403, 502]), "headers": []}
        if agree and m != "CONNECT":
            r["headers"] = [["Upgrade", "foo"], ["Connection", "upgrade"]]
        if agree and not wants and R.random() < 0.5:
            r["status"] = 200
        if not agree:
            r["body"] = R.choice([{"q": [], "end": True, "hint": "auto"}, {"q": [["d", 4]], "end": True, "hint": "auto"}])
        else:
            r["body"] = {"q": [], "end": True, "hint": "auto"}
        rspec = r
        held = x.get("hold", any(s[0] in ("rb", "rbdrop") for b in x["hist"] for s in b))
        reqs.append({"body": "hold" if x["bl"] and held else "read", "resp": "manual", "up": 0})
        reqs.append({"body": "read", "resp": "now", "r": {"status": 200}})
        if pre:
            steps.append(["in", lat(pre)])
    else:
        if k:
            steps.append(["send", 0, {"m": "GET", "u": "/p", "h": [], "rbody": "read", "body": {"q": [], "end": True}}])
            steps.append(["in", lat(pre)])
        q = {"m": m, "u": "h:1" if connect else "/c", "h": [] if connect else [["upgrade", "foo"], ["connection", "upgrade"]], "rbody": "read", "up": 0, "body": {"q": [], "end": True, "hint": "auto"}}
        if m == "POST":
            q["body"] = {"q": [["d", 5]], "end": True, "hint": "auto"}
            if rand and R.random() < 0.6:
                q["body"] = {"q": [["d", 5]], "end": False, "hint": "none"}
        send = ["send", k, q]
        first = x["hist"][:1]
        if first and any(s[0] == "block" for s in first[0]):
            steps += [["wbset", 0]]
        steps.append(send)
    wire = pre + b"".join(pieces)
    pos = 0
    gone = set()
    woff = 0
    rsz = R.choice([0, 0, 4096] + ([] if big else [1, 7])) if rand else R.choice([0, 0, 8192])
    for b in x["hist"]:
        sub = []
        for st in b:
            a, n = st
            if a in gone or (a == "uw" and "us" in gone):
                continue
            if a in ("eof", "us"):
                gone |= {"in", "eof"} if a == "eof" else {"us"}
            if a == "in":
                for pc in pieces[pos:pos + n]:
                    sub.append(["in", lat(pc)])
                pos += n
            elif a == "eof":
                sub.append(["eof"])
            elif a == "respond":
                sub.append(["respond", k, rspec] if srv else ["poke"])
            elif a == "block":
                sub.append(["wbset", 0])
            elif a == "unblock":
                sub.append(["wb", -1])
            elif a == "wcap":
                sub.append(["wcap", R.choice([1, 3, 50])])
            elif a in ("rb", "rbdrop", "us", "ud", "udc", "dropres"):
                if a == "dropres" and srv:
                    continue
                sub.append([a, k])
            elif a == "ur":
                sub.append(["ur", k, n, rsz or 65536] if not rand else ["ur", k, n, rsz or 64])
            elif a == "uw":
                ln = n if not rand else R.choice([n, 100, 20000 if big else 30])
                sub.append(["uwp", k, 9, woff, ln])
                woff += ln
            elif a == "bq":
                if not srv and m == "POST":
                    sub.append(["bend", k] if n or R.random() < 0.3 else ["b", k, ["d", 3]])
            elif a in ("werr", "rerr", "dropconn"):
                sub.append([a])
        if len(sub) == 1:
            steps.append(sub[0])
        elif sub:
            steps.append(["norun", sub])
    sc = {"id": i, "role": role, "seed": R.choice([0, R.randrange(1, 1 << 30)]), "cfg": cfg, "reqs": reqs, "steps": steps,
          "up": {"k": k, "he": he, "wire": lat(wire), "m": m, "wants": wants, "agree": agree, "bl": x["bl"]}}
    return sc


def trace(sc, ev):
    u = sc["up"]
    k, he, wire = u["k"], u["he"], unlat(u["wire"])
    srv = sc["role"] == "server"
    up = u["wants"] and u["agree"]
    out = []
    w = h1.Wire("res" if srv else "req", lambda i: u["m"] if i == k else "GET")
    nend, sdone = 0, False
    read = ured = uraw = 0
    expw, last = b"", b""

    def steps(s):
        for x in (s[1] if s[0] == "norun" else [s]):
            yield x
    # giving the stream up is what drops the transport
    ev = list(ev)
    for i in range(len(ev) - 1):
        if ev[i][0] == "iodrop" and ev[i + 1][0] == "ud":
            ev[i], ev[i + 1] = ev[i + 1], ev[i]
    for e in ev:
        t = e[0]
        if t == "end":
            break
        if t == "step":
            last = expw
            for x in steps(sc["steps"][e[1]]):
                if x[0] == "uwp":
                    expw += pattern(9, x[3], x[4])
                if x[0] == "in":
                    out.append({"e": "fed", "n": len(x[1])})
                elif x[0] == "eof":
                    out.append({"e": "eof"})
                elif x[0] in ("werr", "rerr", "dropconn"):
                    out.append({"e": "fault"})
                elif x[0] == "us":
                    out.append({"e": "usreq"})
        elif t == "skip" and e[1] == "uwp":
            expw = last
        elif t == "resdrop":
            out.append({"e": "fault"})
        elif t == "rd":
            read += e[1]
            out.append({"e": "rd", "n": e[1]})
        elif t == "call":
            if e[1] == k:
                out.append({"e": "called", "handle": True, "nobody": u["bl"] == 0})
            elif e[1] > k:
                out.append({"e": "next"})
        elif t == "res" and e[1] == k and e[2] == "ok":
            out.append({"e": "called", "handle": True, "nobody": True})
            if not u["agree"]:
                out.append({"e": "decl"})
        elif t == "rb" and e[1] == k and srv:
            if e[2] == "end":
                out.append({"e": "bdone"})
            elif e[2] in ("err", "drop"):
                out.append({"e": "bdrop"})
        elif t == "wr":
            b = unlat(e[1])
            if sdone and (not srv) and u["agree"]:
                w.st = "raw"
            for x in w.feed(b):
                if x[0] == "head" and srv and nend == k and x[3][0] == "up":
                    out.append({"e": "oh"})
                    sdone = True
                elif x[0] == "head" and srv and nend == k:
                    out.append({"e": "oh"})
                    out.append({"e": "decl"})
                elif x[0] == "raw":
                    out.append({"e": "raw", "n": len(x[1]), "ok": x[1] == expw[uraw:uraw + len(x[1])]})
                    uraw += len(x[1])
                elif x[0] == "bad":
                    out.append({"e": "bad", "why": x[1]})
                if x[0] == "end":
                    if nend == k and not srv:
                        out.append({"e": "oh"})
                        sdone = True
                    nend += 1
        elif t == "sd":
            out.append({"e": "sd"})
        elif t == "iodrop":
            out.append({"e": "iodrop"})
        elif t == "up" and e[1] == k:
            out.append({"e": "up", "r": e[2]})
        elif t == "updrop" and e[1] == k:
            out.append({"e": "updrop"})
        elif t == "ur":
            d = unlat(e[2])
            out.append({"e": "ur", "n": len(d), "ok": d == wire[he + ured:he + ured + len(d)]})
            ured += len(d)
        elif t in ("urerr", "uwerr", "spin"):
            out.append({"e": t})
        elif t == "uw":
            out.append({"e": "uw", "n": e[2]})
        elif t == "ud":
            out.append({"e": "ud"})
        elif t == "updc":
            out.append({"e": "updc", "ok": e[2] is not None and unlat(e[2]) == wire[he + ured:read]})
        elif t == "parts":
            out.append({"e": "parts", "ok": unlat(e[1]) == wire[he:read]})
        elif t == "conn":
            out.append({"e": "conn", "r": e[1]})
        elif t == "conndrop":
            out.append({"e": "fault"})
        elif t == "abort":
            return {"sc": scof(sc), "ev": [{"e": "panic"}]} if e[1] != "unexplored" else {"sc": scof(sc), "ev": []}
        elif t == "panic":
            out.append({"e": "panic"})
        elif t == "q":
            q = e[1]
            me = [x for x in q.get("ups", []) if x[0] == k]
            c, wq, s = (me[0][1], me[0][2], me[0][3]) if me else (False, 0, False)
            out.append({"e": "q", "ok": q["ok"], "c": c, "w": wq, "s": s})
    return {"sc": scof(sc), "ev": out}


def scof(sc):
    u = sc["up"]
    return {"mode": sc["cfg"]["mode"], "wants": u["wants"], "agree": u["agree"], "he": u["he"], "hc": bool(sc["cfg"].get("half_close")) or sc["role"] == "client"}
