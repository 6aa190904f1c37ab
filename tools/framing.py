"""Concretizes the heads enumerated by Framing.tla."""
import h1

TEXT = {"cl3": "3", "cl0": "0", "cl5": "5", "cl03": "03", "cl3ows": "\t 3 ", "cl3,3": "3, 3", "cl3,5": "3,5",
        "cl+3": "+3", "cl-3": "-3", "clempty": "", "clhex": "0x3", "cl3;": "3;", "cl3 5": "3 5", "cl3,": "3,",
        "clmax": "18446744073709551615", "clover": "99999999999999999999", "clwrap3": "18446744073709551619",
        "clvt3": "\xb33",
        "chunked": "chunked", "Chunked": "ChUnKeD", "chunkedows": " \tchunked \t", "gzip": "gzip",
        "gzip,chunked": "gzip, chunked", "chunked,gzip": "chunked,gzip", "chunked,": "chunked,",
        "chunkedx": "chunkedx", "xchunked": "xchunked", "identity": "identity", "teempty": "", "chunked;q": "chunked;q=1",
        "chunk": "chunk", "chunked,chunked": "chunked, chunked", "vtchunked": "\xe9chunked"}


def lines(ids, R):
    out = []
    for i in ids:
        n = "Content-Length" if i.startswith("cl") else "Transfer-Encoding"
        n = R.choice([n, n, n.lower(), n.upper()])
        out.append("%s:%s%s\r\n" % (n, R.choice([" ", " ", "", "\t"]), TEXT[i]))
    return out


def server(case, verdict, R):
    """-> (wire, recs)"""
    ls = lines(case["ids"], R)
    extra = ["Host: a\r\n"] if R.random() < 0.5 else []
    if R.random() < 0.3:
        extra.append("X-Y: z\r\n")
    v10 = case["v10"]
    if v10:
        extra.append("Connection: keep-alive\r\n")
    pos = R.randint(0, len(extra))
    head = "%s /0 HTTP/%s\r\n" % (case["m"], "1.0" if v10 else "1.1") + "".join(extra[:pos] + ls + extra[pos:]) + "\r\n"
    he = len(head)
    v, n = verdict["v"], verdict["n"]
    segs = []
    if v == "len":
        body = h1.lat(h1.pattern(0, 0, n))
        if n:
            segs = [[he, he + n]]
        be = he + n
    elif v == "chunked":
        body = "3\r\n" + h1.lat(h1.pattern(0, 0, 3)) + "\r\n0\r\n\r\n"
        segs = [[he + 3, he + 6]]
        n = 3
        be = he + len(body)
    else:
        body = "" if v == "none" else R.choice(["3\r\n" + h1.lat(h1.pattern(0, 0, 3)) + "\r\n0\r\n\r\n", h1.lat(h1.pattern(0, 0, 3)), ""])
        n = 0
        be = he
    nxt = "GET /1 HTTP/1.1\r\n\r\n"
    rec = dict(hs=0, he=he, be=be, bb=-1, segs=segs, n=n, v10=v10, cc=False, ck=v10, tecl=case["noreuse"], exp=False, bad=[],
               up=False, len=v != "chunked", tr=False, head=case["m"] == "HEAD", atmost=False)
    rej = dict(rec, be=-1, segs=[], n=0, bad=[400, 431], len=False, tecl=False, head=False)
    b = len(head) + len(body)
    rec2 = dict(hs=b, he=b + len(nxt), be=b + len(nxt), bb=-1, segs=[], n=0, v10=False, cc=False, ck=False, tecl=False, exp=False,
                bad=[], up=False, len=True, tr=False, head=False, atmost=False)
    wire = (head + body + nxt).encode("latin-1")
    return wire, [rec, rec2], [rej]


def segs(wire, R, he):
    """cut the wire into deliveries"""
    c = R.random()
    if c < 0.4:
        return [wire]
    if c < 0.6:
        k = R.randint(1, len(wire) - 1)
        return [wire[:k], wire[k:]]
    if c < 0.8:
        return [wire[:he], wire[he:]] if he < len(wire) else [wire]
    z = R.choice([1, 2, 3, 10])
    return [wire[i:i + z] for i in range(0, len(wire), z)]


REASON = {200: "OK", 404: "Not Found", 204: "No Content", 304: "Not Modified", 101: "Switching Protocols"}


def client(case, R):
    """-> (wire, where the second response starts, [[grps, ds] per acceptable verdict])"""
    ls = lines(case["ids"], R)
    extra = ["x-k: 0\r\n"]
    v10 = case["v10"]
    if v10:
        extra.append("Connection: keep-alive\r\n")
    pos = R.randint(0, len(extra))
    v = "1.0" if v10 else "1.1"
    head = "HTTP/%s %d %s\r\n" % (v, case["st"], REASON[case["st"]]) + "".join(extra[:pos] + ls + extra[pos:]) + "\r\n"
    he = len(head)
    kinds = {x["v"] for x in case["verdicts"]}
    pt = h1.lat(h1.pattern(0, 0, 30))
    chk = "3\r\n" + pt[:3] + "\r\n0\r\n\r\n"
    n = max(x["n"] for x in case["verdicts"])
    if "chunked" in kinds:
        body = chk
    elif "len" in kinds:
        body = pt[:n]
    elif kinds <= {"none", "upgrade"}:
        body = R.choice(["", "", "", chk, pt[:3]])
    else:
        body = R.choice([chk, pt[:3], ""])
    b1 = he + len(body)
    r1 = "HTTP/1.1 200 OK\r\nx-k: 1\r\nContent-Length: 2\r\n\r\n" + h1.lat(h1.pattern(1, 0, 2))
    wire = (head + body + r1).encode("latin-1")
    g1 = dict(gs=b1, infs=[], hs=b1, he=len(wire) - 2, be=len(wire), bb=-1, segs=[[len(wire) - 2, len(wire)]], n=2, cd=False, len=True, tr=False,
              close=False, up=False, bad=-1)
    out = []
    for x in case["verdicts"]:
        g = dict(gs=0, infs=[], hs=0, he=he, be=he, bb=-1, segs=[], n=0, cd=False, len=True, tr=False, close=False, up=False, bad=-1)
        if x["v"] == "chunked":
            g.update(len=False, be=b1, segs=[[he + 3, he + 6]], n=3)
        elif x["v"] == "len":
            g.update(be=he + x["n"], n=x["n"], segs=[[he, he + x["n"]]] if x["n"] else [])
        elif x["v"] == "close":
            g.update(len=False, cd=True, close=True, be=-1, n=-1, segs=[[he, len(wire)]], data=wire[he:])
        elif x["v"] == "upgrade":
            g.update(up=True)
        elif x["v"] == "reject":
            g.update(bad=he, be=-1)
        d = {"st": case["st"], "v": v}
        out.append(([g] if x["v"] in ("close", "upgrade", "reject") else [g, g1], [d, {"st": 200}]))
    return wire, b1, out
