"""Client side: response wires, and the projection of raw logs onto H1ClientObs events."""
import re
import h1
from h1 import lat, unlat, pattern

REASON = {100: "Continue", 102: "Processing", 103: "Early Hints", 200: "OK", 204: "No Content", 304: "Not Modified", 404: "Not Found", 101: "Switching Protocols"}


def build_resp(d, k, off, head=False):
    """d: abstract response group for the k-th request on the wire. -> bytes, group record"""
    out = b""
    infs = []
    for st in d.get("infs", []):
        out += ("HTTP/1.1 %d %s\r\nx-i: %d\r\n\r\n" % (st, REASON[st], k)).encode()
        infs.append(off + len(out))
    g = dict(gs=off, infs=infs, hs=off + len(out), he=-1, be=-1, bb=-1, segs=[], n=0, cd=False, len=True, tr=False, close=False, up=False, bad=-1)
    if "raw" in d:
        g["bad"] = off + len(out) + d["badat"]
        g["he"] = off + len(out) + len(d["raw"])
        return out + unlat(d["raw"]), g, d
    v, st, fr, n = d.get("v", "1.1"), d.get("st", 200), d.get("fr", "len"), d.get("n", 0)
    h = [("x-k", str(k))]
    for c in d.get("conn", []):
        h.append(("Connection", c))
    ct = [x.strip().lower() for c in d.get("conn", []) for x in c.split(",")]
    if fr == "len":
        h += [("Content-Length", str(n))] * d.get("clrep", 1)
    elif fr in ("chunked", "both"):
        if fr == "both":
            h.append(("Content-Length", str(d.get("cl", 3))))
        h.append(("Transfer-Encoding", d.get("te", "chunked")))
    elif fr == "teclose":
        h.append(("Transfer-Encoding", d.get("te", "gzip")))
        if d.get("cl") is not None:
            h.append(("Content-Length", str(d["cl"])))
    h += [tuple(x) for x in d.get("h", [])]
    out += ("HTTP/%s %d %s\r\n" % (v, st, d.get("reason", REASON.get(st, "X")))).encode() + b"".join(a.encode() + b": " + unlat(b) + b"\r\n" for a, b in h) + b"\r\n"
    g["he"] = off + len(out)
    base = g["he"]
    g["close"] = "close" in ct or (v == "1.0" and "keep-alive" not in ct)
    if d.get("up"):
        g["up"] = True
        g["be"] = base
        return out, g, d
    if head or st in (204, 304):
        g["be"] = base
        return out, g, d
    body = b""
    if fr == "len":
        body = pattern(k, 0, n)
        g["n"] = n
        if n:
            g["segs"] = [[base, base + n]]
        g["be"] = base + n
    elif fr in ("chunked", "both"):
        g["len"] = False
        p = 0
        for j, c in enumerate(d.get("chunks", [])):
            if d.get("badchunk") == j:
                g["bb"] = base + len(body) + 1
                body += b"Z\r\n"
                break
            body += ("%x\r\n" % c).encode()
            g["segs"].append([base + len(body), base + len(body) + c])
            body += pattern(k, p, c) + b"\r\n"
            p += c
        g["n"] = p
        if g["bb"] < 0:
            body += b"0\r\n"
            for a, b in d.get("tr", []):
                body += a.encode() + b": " + unlat(b) + b"\r\n"
            body += b"\r\n"
            g["tr"] = bool(d.get("tr"))
            g["be"] = base + len(body)
    else:       # close delimited
        g["len"] = False
        g["cd"] = True
        g["close"] = True
        body = pattern(k, 0, n)
        g["segs"] = [[base, base + n]]
        g["n"] = -1
    return out + body, g, d


def build_grps(ds, heads=()):
    out, gs, ok = b"", [], []
    for k, d in enumerate(ds):
        b, g, _ = build_resp(d, k, len(out), head=k < len(heads) and heads[k])
        out += b
        gs.append(g)
        if g["bad"] >= 0 or g["bb"] >= 0 or g["cd"] or g["up"]:
            break
    return out, gs


def client_trace(sc, reqs, grps, ds, ev, blk=False, mark=False):
    cfg = sc["cfg"]
    datas = {k: g["data"] for k, g in enumerate(grps) if "data" in g}
    grps = [{a: b for a, b in g.items() if a != "data"} for g in grps]
    # where request heads start in the written bytes
    W = b"".join(unlat(e[1]) for e in ev[:next((i for i, x in enumerate(ev) if x[0] == "end"), len(ev))] if e[0] == "wr")
    w = h1.Wire("req")
    starts = []
    for a in range(len(W)):
        if w.st == "head" and not w.buf and not w.dead:
            m = re.match(rb"[A-Z]+ (?:http://a(?::1)?/|/|h)(\d+)[ :]", W[a:a + 60])
            starts.append((a, int(m[1]) if m else -1))
        w.feed(W[a:a + 1])
    if starts and starts[-1][1] < 0:
        # only part of the last head was written: the first request touched that is not accounted for
        known = {i for _, i in starts}
        c = [e[2] for e in ev if e[0] in ("bp", "bd") and e[1] == "c" and e[2] not in known]
        if c:
            starts[-1] = (starts[-1][0], c[0])
    w = h1.Wire("req")
    out, order, got, wrote, frames, cur = [], [], {}, {}, {}, -1
    infc = {}
    heads = []
    pos = 0
    dirty = False
    sent = []
    resolved = set()
    # a request is taken up when its body is first polled or dropped, if it got that far at all
    onwire = {i for _, i in starts} | {e[1] for e in ev if e[0] == "inf" or (e[0] == "res" and e[2] == "ok")}
    taken = []

    def take(i):
        if i in onwire and i not in taken:
            taken.append(i)
            order.append(i)
            out.append({"e": "tk", "i": i})

    def feed(b):
        nonlocal cur
        for x in w.feed(b):
            if x[0] == "data":
                o = wrote.get(cur, 0)
                out.append({"e": "ob", "n": len(x[1]), "ok": x[1] == pattern(max(cur, 0), o, len(x[1]))})
                wrote[cur] = o + len(x[1])
            elif x[0] == "end":
                out.append({"e": "oe"})
            elif x[0] == "bad":
                out.append({"e": "bad", "why": x[1]})
    for e in ev:
        t = e[0]
        if t == "end":
            break
        if t == "step":
            if mark:
                out.append({"e": "step"})
        elif t == "rd":
            out.append({"e": "rd", "n": e[1]})
        elif t == "rderr":
            out.append({"e": "rderr"})
        elif t in ("wrerr", "wr0", "flerr"):
            out.append({"e": "werr"})
        elif t == "wr":
            b = unlat(e[1])
            out.append({"e": "wr", "n": len(b)})
            dirty = True
            p = 0
            for a, i in starts:
                if pos <= a < pos + len(b):
                    feed(b[p:a - pos])
                    p = a - pos
                    if i < 0 or i in heads:
                        out.append({"e": "tk", "i": i})
                    else:
                        take(i)
                    heads.append(i)
                    out.append({"e": "oh", "i": i})
                    cur = i
            feed(b[p:])
            pos += len(b)
        elif t == "fl":
            if dirty:
                out.append({"e": "fl"})
                dirty = False
        elif t in ("sd", "txdrop", "conndrop", "spin"):
            out.append({"e": t})
        elif t == "send":
            sent.append(e[1])
            out.append({"e": "send", "i": e[1]})
        elif t == "res":
            i = e[1]
            resolved.add(i)
            if e[2] == "ok":
                take(i)
                k = order.index(i) if i in order else -1
                d = ds[k] if 0 <= k < len(ds) else {}
                x = e[3]
                h = dict((a, b) for a, b in x["h"])
                ok = x["s"] == d.get("st", 200) and h.get("x-k") == str(k) and x["v"] == d.get("v", "1.1")
                out.append({"e": "res", "i": i, "r": "ok", "ok": ok, "back": False, "lo": x["hint"][0],
                            "hi": -1 if x["hint"][1] is None else x["hint"][1], "eos": x["hint"][2]})
            else:
                out.append({"e": "res", "i": i, "r": "err", "ok": True, "back": bool(e[4]), "lo": 0, "hi": -1, "eos": False, "d": e[3]["d"]})
        elif t == "resdrop":
            resolved.add(e[1])
            out.append({"e": "resdrop", "i": e[1]})
        elif t == "inf":
            i = e[1]
            take(i)
            k = order.index(i) if i in order else -1
            j = infc.get(i, 0)
            infc[i] = j + 1
            d = ds[k] if 0 <= k < len(ds) else {}
            inf = d.get("infs", [])
            ok = j < len(inf) and inf[j] == e[2] and [["x-i", str(k)]] == e[3]
            out.append({"e": "inf", "i": i, "ok": ok})
        elif t == "rb":
            i, x = e[1], e[2]
            k = order.index(i) if i in order else -1
            if x == "d":
                b = unlat(e[3])
                o = got.get(i, 0)
                got[i] = o + len(b)
                out.append({"e": "rb", "i": i, "t": "d", "n": len(b), "ok": b == (datas[k][o:o + len(b)] if k in datas else pattern(max(k, 0), o, len(b))),
                            "lo": e[4][0], "hi": -1 if e[4][1] is None else e[4][1], "eos": e[4][2], "was": e[5]})
            elif x == "t":
                d = ds[k] if 0 <= k < len(ds) else {}
                out.append({"e": "rb", "i": i, "t": "t", "was": e[5], "ok": sorted(map(list, e[3])) == sorted([a.lower(), b] for a, b in d.get("tr", []))})
            elif x == "err":
                out.append({"e": "rb", "i": i, "t": "err", "d": e[3]["d"]})
            else:
                out.append({"e": "rb", "i": i, "t": x})
        elif t == "bp":
            if e[1] != "c":
                continue
            i = e[2]
            take(i)
            d = {"e": "bp", "i": i, "t": e[3]}
            if e[3] == "d":
                fs = frames.setdefault(i, [])
                fs.append((fs[-1] if fs else 0) + e[4])
                d["n"] = e[4]
                d["o"] = sum(1 for f in fs if f > wrote.get(i, 0))
            out.append(d)
        elif t == "bd":
            if e[1] == "c":
                take(e[2])
                out.append({"e": "bd", "i": e[2], "done": e[3]})
        elif t == "conn":
            out.append({"e": "conn", "r": e[1], "k": e[2]["k"] if len(e) > 2 else "", "d": e[2]["d"] if len(e) > 2 else ""})
        elif t == "panic":
            out.append({"e": "panic", "why": str(e[1])[:200]})
        elif t == "abort":
            out.append({"e": "panic" if e[1] != "unexplored" else "skip", "why": e[1]})
        elif t == "q":
            q = e[1]
            out.append({"e": "q", "t": q["t"], "conn": q["conn"], "left": q["in"], "term": q["term"], "ok": q["ok"], "oq": q["oq"],
                        "ready": bool(q.get("ready")), "closed": bool(q.get("closed"))})
    scn = dict(reqs=reqs, grps=grps, maxbuf=cfg.get("max_buf", 8192 + 4096 * 100), mode=cfg.get("mode", "plain"),
               vec=bool(cfg.get("vectored")) and cfg.get("writev", True) is not False, blk=blk)
    return {"sc": scn, "ev": out}
