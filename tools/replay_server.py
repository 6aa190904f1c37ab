"""Behaviours of the design model H1Server (from H1ServerGen) replayed against the code, and
what the code shows at every quiescent point handed back to TLC (H1ServerReplay)."""
import random
import h1

TICK = 100      # ms per model time unit

KIND = {"get": {"m": "GET"}, "head": {"m": "HEAD"}, "close": {"m": "GET", "conn": ["close"]},
        "old": {"m": "GET", "v": "1.0"}, "oldka": {"m": "GET", "v": "1.0", "conn": ["keep-alive"]},
        "len2": {"m": "POST", "fr": "len", "n": 2}, "exp1": {"m": "POST", "fr": "len", "n": 1, "exp": True},
        "chk1": {"m": "POST", "fr": "chunked", "chunks": [1]},
        "chkbad": {"m": "POST", "fr": "chunked", "chunks": [1], "badchunk": -1, "badtext": "Z\r\n"},
        "bad": {"raw": "GET / HTTP/1.1\r\nbad header\r\n\r\n", "bad": [400]}}


def units(kind, off, rec, wire, R):
    """end offsets of the model's units of one request"""
    he = rec["he"]
    u = [R.randint(off + 1, off + 15 if kind == "bad" else he - 1), he]   # (a cut later would show the defect already)
    end = rec["be"] if rec["be"] >= 0 else len(wire)
    if kind == "len2":
        u += [he + 1, he + 2]
    elif kind == "exp1":
        u += [he + 1]
    elif kind in ("chk1", "chkbad"):
        u += [rec["segs"][0][1], end]
    return u


def body(kind, frames):
    if kind in ("empty", "clempty"):
        return {"q": [], "end": True, "hint": "auto"}
    if kind in ("close1",):
        return {"q": [["d", 1]], "end": True}
    if kind == "fail":
        return {"q": [["d", 1], ["e"]], "end": False}
    q = [["d", 1], ["d", 1]]
    return {"q": q[:frames], "end": frames > 2}


def resp(kind, frames):
    h = []
    if kind in ("clempty", "close1"):
        h.append(["connection", "close"])
    if kind == "len2":
        h.append(["content-length", "2"])
    return {"status": 200, "headers": h, "body": body(kind, frames)}


def concretize(scen, idx, seed, frames=1, settle=True):
    R = random.Random(seed)
    kinds = scen["kinds"]
    wire, recs = h1.build_reqs([KIND[x] for x in kinds])
    cuts, off = [], 0
    for kd, r in zip(kinds, recs):
        cuts += units(kd, r["hs"], r, wire, R)
    ka, hc, hrt = scen["conf"]
    cfg = {"mode": R.choice(["plain", "plain", "upg"]), "keep_alive": ka, "half_close": hc, "vectored": R.random() < 0.5}
    if hrt >= 0:
        cfg["hrt"] = hrt * TICK
    sc = {"id": idx, "role": "server", "seed": seed, "cfg": cfg,
          "reqs": [{"body": "hold", "resp": "manual"} for _ in kinds], "steps": []}
    hist = [list(b) for b in scen["hist"]]
    if settle:
        hist += [[["unblock", 0, -1]]]
        for k in range(len(kinds)):
            hist += [[["release", 0, k]], [["respond", "chk2", k]], [["release", 0, k]]]
        hist += [[["eof", 0, -1]]]
        if hrt >= 0:
            hist += [[["tick", 0, -1]] * 3]
    pos = u = 0
    used = {}
    eof = False
    for b in hist:
        st = []
        for x, a, k in b:
            if x == "deliver":
                if eof:
                    continue
                for _ in range(1 if a == 1 else len(cuts) - u):
                    if u < len(cuts):
                        st.append(["in", h1.lat(wire[pos:cuts[u]])])
                        pos = cuts[u]
                        u += 1
            elif x == "eof":
                if not eof:
                    st.append(["eof"])
                eof = True
            elif x == "rb":
                st.append(["rb", k, 1])
            elif x == "rbdrop":
                st.append(["rbdrop", k])
            elif x == "respond":
                if a == "err":
                    st.append(["svcerr", k, None])
                else:
                    st.append(["respond", k, resp(a, frames)])
                    used.setdefault(k, a)
            elif x == "release":
                if used.get(k) in ("len2", "chk2") and frames < 3:
                    st += [["b", k, ["d", 1]]] * (2 - frames) + [["bend", k]]
            elif x == "block":
                st.append(["wbset", 0])
            elif x == "unblock":
                st.append(["wb", -1])
            elif x == "graceful":
                st.append(["graceful"])
            elif x == "tick":
                st.append(["t", TICK])
        sc["steps"].append(["norun", st])
    return sc, recs, wire, hist


def observed(tr, n):
    """What the code showed at each quiescent point, from the semantic trace."""
    o = dict(called=0, got=[0] * n, rst=["open"] * n, heads=0, ends=0, c100=0, wrote=[0] * n,
             gone=[False] * n, sd=False, res="none")
    out, last = [], None
    for e in tr["ev"]:
        t = e["e"]
        if t == "step":
            out.append(last)
            continue
        k = e.get("k", 0) if isinstance(e.get("k", 0), int) else 0
        if "k" in e and isinstance(e["k"], int) and not 0 <= k < n:
            continue
        if t == "call":
            o["called"] = max(o["called"], k + 1)
        elif t == "rb":
            if e["t"] == "d":
                o["got"][k] += e["n"]
            elif e["t"] == "end" and o["rst"][k] != "err":
                o["rst"][k] = "end"
            elif e["t"] == "err":
                o["rst"][k] = "err"
            elif e["t"] == "drop" and o["rst"][k] == "open":
                o["rst"][k] = "drop"
        elif t == "oh":
            o["heads"] += 1
            o["c100"] = 0
        elif t == "o100":
            o["c100"] += 1
        elif t == "ob":
            if o["ends"] < n and o["ends"] < o["called"]:
                o["wrote"][o["ends"]] += e["n"]
        elif t == "oe":
            o["ends"] += 1
        elif t == "bd":
            o["gone"][k] = True
        elif t == "sd":
            o["sd"] = True
        elif t == "conn":
            o["res"] = e["r"]
        elif t == "q":
            last = {a: (list(b) if isinstance(b, list) else b) for a, b in o.items()}
    return out + [last]
