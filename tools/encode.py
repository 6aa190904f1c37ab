"""Concretizes the cases of Encode.tla and extracts what the peer saw."""
import h1

CLT = {"n5": ["5"], "n3": ["3"], "n7": ["7"], "n0": ["0"], "eq5": ["5", "5"], "diff": ["5", "3"], "bad": ["abc"], "plus": ["+5"]}
TET = {"chunked": ["chunked"], "gzip": ["gzip"], "gzipchunked": ["gzip, chunked"], "lines": ["gzip", "chunked"]}
TRV = {"a": "x-a", "b": "x-bb"}


def name(t):
    return TRV.get(t, t)


def value(t):
    return "v-" + t


def body(c, R):
    b = c["body"]
    q = []
    left = b["n"]
    while left:
        z = R.randint(1, left)
        q.append(["d", z])
        left -= z
        if R.random() < 0.15:
            q.append(["d", 0])
    if c["trs"]:
        tr = [[name(t), value(t)] for t in c["trs"]]
        if R.random() < 0.3:
            tr.append(tr[0])
        q.append(["t", tr])
    if b["err"]:
        q.append(["e"])
    s = {"q": q, "end": True, "eos": b["empty"] or (b["n"] > 0 and R.random() < 0.6)}
    if b["hint"] >= 0:
        s["hint"] = [b["hint"], b["hint"]]
    elif R.random() < 0.3:
        s["hint"] = [0, R.choice([None, 100])]
        if b["empty"]:
            s.pop("hint")
    late = []
    if not b["empty"] and R.random() < 0.3:
        k = R.randint(0, len(q))
        late = [["b", 0, f] for f in q[k:]] + [["bend", 0]]
        s["q"] = q[:k]
        s["end"] = False
    return s, late


def fields(c, R):
    h = []
    cl = [["content-length", v] for v in CLT.get(c["cl"], [])]
    te = [["transfer-encoding", v] for v in TET.get(c["te"], [])]
    h = cl + te if R.random() < 0.5 else te + cl
    if c["decl"]:
        d = [name(x) for x in c["decl"]]
        R.shuffle(d)
        if R.random() < 0.5:
            d = [R.choice([x, x.upper(), x.title()]) for x in d]
        if len(d) > 1 and R.random() < 0.4:
            k = R.randint(1, len(d) - 1)
            h += [["trailer", ", ".join(d[:k])], ["trailer", ",".join(d[k:])]]
        else:
            h.append(["trailer", R.choice([", ", ",", " , "]).join(d)])
    if R.random() < 0.3:
        h.insert(R.randint(0, len(h)), ["x-f", "y"])
    return h


def cfg(R):
    o = {"vectored": R.random() < 0.5}
    if R.random() < 0.2:
        o["wcap"] = R.choice([1, 3, 20])
    if R.random() < 0.2:
        o["title_case"] = True
    if R.random() < 0.1:
        o["writev"] = R.choice([True, False])
    if R.random() < 0.1:
        o["wblip"] = True
    return o


def server(c, i, R):
    v = "1.0" if c["v10"] else "1.1"
    h = "".join("%s: %s\r\n" % x for x in
                ([("Connection", "keep-alive")] if c["v10"] else [])
                + ([("Upgrade", "p"), ("Connection", "upgrade")] if c["st"] == 101 and R.random() < 0.7 and not c["v10"] else [])
                + ([("TE", "trailers")] if c["allow"] else ([("TE", R.choice(["deflate", "trailersx", "xtrailers", ""]))] if c["trs"] and R.random() < 0.4 else [])))
    tgt = "a:1" if c["m"] == "CONNECT" else "/0"
    wire = "%s %s HTTP/%s\r\nHost: a\r\n%s\r\n" % (c["m"], tgt, v, h) + "GET /1 HTTP/1.1\r\n\r\n"
    b, late = body(c, R)
    r = {"status": c["st"], "headers": fields(c, R), "version": c["rv"], "body": b}
    sc = {"id": i, "role": "server", "seed": R.choice([0, R.randrange(1 << 30)]), "cfg": dict(cfg(R), mode="upg" if c["st"] == 101 or c["m"] == "CONNECT" else R.choice(["plain", "upg"]), half_close=True),
          "reqs": [{"body": "read", "resp": "now", "r": r}, {"body": "read", "resp": "now", "r": {"status": 200, "headers": [], "body": {"q": [["s", "ok"]], "end": True, "hint": "auto"}}}],
          "steps": [["in", wire]] + late, "case": c}
    return sc


def client(c, i, R):
    b, late = body(c, R)
    rq = {"m": c["m"], "u": "http://a:1/" if c["m"] != "CONNECT" else "a:1", "v": "1.0" if c["v10"] else c["rv"], "h": [["host", "a"]] + fields(c, R), "body": b, "try": R.random() < 0.5, "rbody": "read"}
    if c["m"] != "CONNECT":
        rq["u"] = "/0"
    st = "404 N" if c["m"] == "CONNECT" else "200 OK"
    resp = "HTTP/1.1 %s\r\nContent-Length: 0\r\n\r\n" % st
    sc = {"id": i, "role": "client", "seed": R.choice([0, R.randrange(1 << 30)]), "cfg": cfg(R),
          "steps": [["send", 0, rq]] + late + [["in", resp], ["send", 1, {"m": "GET", "u": "/1", "h": [], "body": {"q": [], "end": True}}]], "case": c}
    return sc


def obs(c, ev):
    """what the peer saw of the message"""
    srv = c["role"] == "server"
    w = h1.Wire("res" if srv else "req", lambda i: c["m"] if i == 0 else "GET")
    o = dict(bad=False, panic=False, st=0, fr="refused", n=0, cl=-1, data=0, dataok=True, fin="open", trs=[], trok=True, next=False,
             shut=False, conn="", res="", why="")
    cur = -1
    for e in ev:
        t = e[0]
        if t == "end":
            break
        if t == "wr":
            for x in w.feed(h1.unlat(e[1])):
                if x[0] == "head":
                    cur += 1
                    if cur == 0:
                        o["st"] = x[1].get("st", 0)
                        o["fr"], o["n"] = x[3]
                        if o["fr"] in ("none", "up"):
                            cl = [v for n, v in x[2] if n.lower() == "content-length"]
                            o["cl"] = int(cl[0]) if cl else -1
                        if not srv and x[1]["u"] not in ("/0", "a:1"):
                            o["bad"], o["why"] = True, "target"
                        if not srv and x[1]["m"] != c["m"]:
                            o["bad"], o["why"] = True, "method"
                    else:
                        o["next"] = True
                        if srv and (x[1]["st"] != 200 or x[3][0] not in ("len", "close")):
                            o["bad"], o["why"] = True, "next"
                elif x[0] == "data":
                    if cur == 0:
                        if x[1] != h1.pattern(0, o["data"], len(x[1])):
                            o["dataok"] = False
                        o["data"] += len(x[1])
                    elif x[1] not in (b"ok", b"o", b"k"):
                        o["bad"], o["why"] = True, "next data"
                elif x[0] == "end":
                    if cur == 0:
                        o["fin"] = "end"
                        for n, v in x[1] or []:
                            back = {name(t): t for t in c["trs"]}
                            t = back.get(n.lower(), "?" + n)
                            o["trs"].append(t)
                            if value(t) != v:
                                o["trok"] = False
                elif x[0] == "interim":
                    o["bad"], o["why"] = True, "interim"
                elif x[0] == "bad":
                    o["bad"], o["why"] = True, x[1]
        elif t == "sd":
            o["shut"] = True
        elif t == "conn":
            o["conn"], o["shut"] = e[1], True
        elif t == "res" and e[1] == 0:
            o["res"] = e[2]
        elif t == "panic" or (t == "abort" and e[1] != "unexplored"):
            o["panic"], o["why"] = True, str(e[1])[:200]
    o["trs"] = sorted(set(o["trs"]))
    return o
