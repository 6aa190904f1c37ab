"""Concretizes the cases of H2Head.tla and reads back what travelled."""
import hpack

CONN = {"close": "close", "hop": "keep-alive", "a": "x-a", "ab": "x-a, x-b", "upper": "X-A", "spaces": " x-a ,\tx-b ", "empties": ",x-a,,",
        "te": "te", "length": "content-length, x-a", "obs": "x-a, \xff", "junk": "@, x-a"}
TE = {"none": [], "trailers": ["trailers"], "gzip": ["gzip"], "list": ["trailers, gzip"], "case": ["Trailers"], "tr,gz": ["trailers", "gzip"],
      "gz,tr": ["gzip", "trailers"], "tr,tr": ["trailers", "trailers"], "empty": [""]}
HOP = {"keep-alive": "timeout=5", "proxy-connection": "keep-alive", "transfer-encoding": "chunked", "upgrade": "websocket"}
ORD = {"a": "x-a", "b": "x-b", "c": "x-c"}
N = 3


def values(f, dup):
    v = HOP[f] if f in HOP else "v-" + f
    return [v, v + "2"] if dup else [v]


def fields(c, R):
    """the fields in some order; those of one name keep theirs"""
    groups = [[("connection", CONN[i])] for i in c["conn"]]
    q = [[("connection", CONN[i]) for i in c["conn"]], [("te", v) for v in TE[c["te"]]]]
    for f in c["has"]:
        q.append([(ORD.get(f, f), v) for v in values(f, c["dup"])])
    if c["cl"] != "none":
        q.append([("content-length", "3" if c["cl"] == "right" else "0")])
    q = [x for x in q if x]
    out = []
    while q:
        x = R.choice(q)
        out.append(list(x.pop(0)))
        if not x:
            q.remove(x)
    return out


def body(c):
    b = {"empty": {"q": [], "end": True}, "exact": {"q": [["d", N]], "end": True, "hint": "auto", "eos": False},
         "unknown": {"q": [["d", N]], "end": True, "hint": None, "eos": False},
         "zero": {"q": [], "end": True, "hint": [0, 0], "eos": False}}[c["body"]]
    b = dict(b, q=list(b["q"]))
    t = {"none": None, "plain": [["tr-p", "1"]], "hop": [["tr-p", "1"], ["connection", "close"]],
         "nominated": [["tr-p", "1"], ["x-a", "1"]]}[c["trl"]]
    if t:
        b["q"].append(["t", t])
    return b


def scenario(c, i, R):
    fs = fields(c, R)
    cfg = {"proto": 2, "vectored": R.random() < 0.5, "peer": {"set": {}}}
    if c["role"] == "server":
        r = {"status": c["st"], "headers": [["x-k", "0"]] + fs, "body": body(c)}
        return {"id": i, "role": "server", "seed": R.choice([0, R.randrange(1 << 30)]), "cfg": dict(cfg, date=False),
                "reqs": [{"body": "read", "resp": "now", "r": r}],
                "steps": [["ph", 1, [[":method", "GET"], [":scheme", "http"], [":authority", "h"], [":path", "/1"], ["te", "trailers"]], True, False]], "case": c}
    rq = {"m": c["m"], "u": "http://h/0", "h": [["x-k", "0"]] + fs, "body": body(c), "try": R.random() < 0.5, "rbody": "read"}
    return {"id": i, "role": "client", "seed": R.choice([0, R.randrange(1 << 30)]), "cfg": cfg, "steps": [["send", 0, rq]], "case": c}


def obs(c, ev):
    F = hpack.Frames(c["role"] == "client")
    o = dict(sent=False, n={f: 0 for f in list(ORD) + list(HOP) + ["connection"]}, wrong=0, other=0, te=[], cl=[], trl="none", data=0, panic=False, why="")
    back = {v: k for k, v in ORD.items()}
    seen = {}
    for e in ev:
        if e[0] == "end":
            break
        if e[0] == "panic" or (e[0] == "abort" and e[1] != "unexplored"):
            o["panic"], o["why"] = True, str(e[1])[:200]
        if e[0] != "wr":
            continue
        for f in F.feed(e[1].encode("latin-1")):
            if f["t"] == "data":
                o["data"] += len(f["d"])
            elif f["t"] == "rst":
                o["trl"] = "reset"
            elif f["t"] == "head" and o["sent"]:
                names = sorted(n for n, v in f["h"])
                o["trl"] = {("tr-p",): "plain", ("tr-p", "x-a"): "all"}.get(tuple(names), "?" + ",".join(names))
            elif f["t"] == "head":
                o["sent"] = True
                for n, v in f["h"]:
                    k = back.get(n, n)
                    if n[0] == ":" or n == "date":
                        want = {":status": str(c["st"]), ":method": c["m"], ":scheme": "http", ":authority": "h", ":path": "/0"}
                        if n != "date" and want.get(n) != v:
                            o["wrong"] += 1
                    elif n == "x-k":
                        o["wrong"] += v != "0"
                    elif n == "te":
                        o["te"].append("case" if v == "Trailers" else v)
                    elif n == "content-length":
                        o["cl"].append(int(v) if v.isdigit() else 99)
                    elif k in o["n"]:
                        j = seen.get(k, 0)
                        seen[k] = j + 1
                        o["n"][k] += 1
                        vs = values(k, c["dup"]) if k != "connection" else []
                        if k in c["has"] and (j >= len(vs) or vs[j] != v):
                            o["wrong"] += 1
                    else:
                        o["other"] += 1
    return o
