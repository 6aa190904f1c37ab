"""HTTP/1 wire construction, strict independent parsing of what hyper writes, and the
projection of raw harness logs onto the events of the TLA+ observers."""
import re

TOK = re.compile(rb"^[!#$%&'*+\-.^_`|~0-9A-Za-z]+$")


def lat(b):
    return b.decode("latin-1")


def unlat(s):
    return s.encode("latin-1")


def pat(k, i):
    return 97 + ((k * 7 + i + i // 26) % 26)


def pattern(k, off, n):
    return bytes(pat(k, i) for i in range(off, off + n))


def tokens(hdrs, name):
    """list elements of all header lines called `name` (lower-cased)"""
    r = []
    for n, v in hdrs:
        if n.lower() == name:
            r += [t.strip(" \t").lower() for t in v.split(",")]
    return r


# ---- requests --------------------------------------------------------------

def build_req(d, k, off):
    """d: abstract request. Returns (bytes, record for the TLA+ observer)."""
    m, v = d.get("m", "GET"), d.get("v", "1.1")
    if "raw" in d:
        b = unlat(d["raw"])
        he = d.get("he", len(b))
        return b, dict(hs=off, he=off + he, be=-1, bb=-1, segs=[], n=0, v10=False, cc=False, ck=False, tecl=False,
                       exp=False, bad=d["bad"], up=False, len=False, tr=False, head=False, atmost=d.get("atmost", False))
    h = []
    for c in d.get("conn", []):
        h.append(("Connection", c))
    fr = d.get("fr", "none")
    n = d.get("n", 0)
    if d.get("exp"):
        h.append(("Expect", "100-continue"))
    if fr == "len":
        h.append(("Content-Length", str(n)))
    elif fr == "chunked":
        h.append(("Transfer-Encoding", "chunked"))
    elif fr == "both":
        h.append(("Content-Length", str(d.get("cl", n))))
        h.append(("Transfer-Encoding", "chunked"))
    if d.get("up"):
        h.append(("Upgrade", d["up"] if isinstance(d["up"], str) else "proto"))
        h.append(("Connection", "upgrade"))
    if d.get("te_trailers"):
        h.append(("TE", "trailers"))
    h += [tuple(x) for x in d.get("h", [])]
    tgt = d.get("u", "/%d" % k)
    head = ("%s %s HTTP/%s\r\n" % (m, tgt, v)).encode() + b"".join(
        a.encode() + b": " + unlat(b) + b"\r\n" for a, b in h) + b"\r\n"
    pre = unlat(d.get("pre", ""))
    head = pre + head
    body, segs, bb, be = b"", [], -1, None
    base = off + len(head)
    if fr == "len":
        body = pattern(k, 0, n)
        if n:
            segs.append([base, base + n])
    elif fr in ("chunked", "both"):
        p = 0
        for j, c in enumerate(d.get("chunks", [])):
            if d.get("badchunk") == j:
                bad = unlat(d.get("badtext", "Z\r\n"))
                bb = base + len(body) + d.get("badat", 1)
                body += bad
                break
            ext = d.get("ext", "") if j == d.get("extat", 0) else ""
            body += ("%x%s\r\n" % (c, ext)).encode()
            segs.append([base + len(body), base + len(body) + c])
            body += pattern(k, p, c) + b"\r\n"
            p += c
        if bb < 0:
            if d.get("badchunk", -2) == -1:
                bad = unlat(d.get("badtext", "Z\r\n"))
                bb = base + len(body) + d.get("badat", 1)
                body += bad
            else:
                body += b"0\r\n"
                for a, b in d.get("tr", []):
                    body += a.encode() + b": " + unlat(b) + b"\r\n"
                body += b"\r\n"
        n = sum(c for c in d.get("chunks", []))
    be = -1 if bb >= 0 else base + len(body)
    ct = [t for c in d.get("conn", []) for t in [x.strip().lower() for x in c.split(",")]]
    rec = dict(hs=off, he=base, be=be, bb=bb, segs=segs, n=n, v10=(v == "1.0"),
               cc="close" in ct, ck="keep-alive" in ct, tecl=(fr == "both"),
               exp=bool(d.get("exp")) and v == "1.1" and (n > 0 or fr in ("chunked", "both")),
               bad=[], up=bool(d.get("up")) or m == "CONNECT", len=(fr != "chunked" and fr != "both"),
               tr=bool(d.get("tr")), head=(m == "HEAD"), atmost=False)
    return head + body, rec


def build_reqs(descs, tail=b""):
    out, recs = b"", []
    for k, d in enumerate(descs):
        b, r = build_req(d, k, len(out))
        out += b
        recs.append(r)
        if r["bad"] or r["bb"] >= 0:
            break
    return out + tail, recs


# ---- strict incremental parser of one direction of HTTP/1 -----------------------

class Bad(Exception):
    pass


FIELD = re.compile(rb"^([!#$%&'*+\-.^_`|~0-9A-Za-z]+):[ \t]*(.*?)[ \t]*$", re.S)


def parse_head(raw, kind):
    """raw: bytes up to and including the blank line. kind: 'res' or 'req'."""
    lines = raw.split(b"\r\n")
    if lines[-1] != b"" or lines[-2] != b"":
        raise Bad("head end")
    lines = lines[:-2]
    if kind == "res":
        m = re.match(rb"^HTTP/(1\.[01]) ([1-9]\d\d) ([\t\x20-\x7e\x80-\xff]*)$", lines[0])
        if not m:
            raise Bad("status line")
        start = {"v": lat(m[1]), "st": int(m[2]), "reason": lat(m[3])}
    else:
        m = re.match(rb"^([!#$%&'*+\-.^_`|~0-9A-Za-z]+) ([\x21-\x7e\x80-\xff]+) HTTP/(1\.[01])$", lines[0])
        if not m:
            raise Bad("request line")
        start = {"m": lat(m[1]), "u": lat(m[2]), "v": lat(m[3])}
    hdrs = []
    for l in lines[1:]:
        m = FIELD.match(l)
        if not m or b"\r" in l or b"\n" in l or b"\0" in l:
            raise Bad("field line")
        hdrs.append((lat(m[1]), lat(m[2])))
    return start, hdrs


def framing(start, hdrs, kind, method=None):
    """-> ('none',0) | ('len',n) | ('chunked',0) | ('close',0) | ('up',0)"""
    te = tokens(hdrs, "transfer-encoding")
    cl = [v for n, v in hdrs if n.lower() == "content-length"]
    if len(cl) > 1 and (kind == "res" or len(set(cl)) > 1):
        raise Bad("several content-length")
    if cl and not re.match(r"^\d+$", cl[0]):
        raise Bad("content-length value")
    if cl and te:
        raise Bad("content-length and transfer-encoding")
    if te and start["v"] == "1.0":
        raise Bad("transfer-encoding on 1.0")
    if te and (te.count("chunked") != 1 or te[-1] != "chunked"):
        raise Bad("transfer-encoding value")
    if kind == "res":
        st = start["st"]
        if st == 101 or (method == "CONNECT" and 200 <= st < 300):
            if te or cl:
                raise Bad("framing on upgrade")
            return ("up", 0)
        if st < 200 or st == 204:
            if te or cl:
                raise Bad("framing on a bodiless status")
            return ("none", 0)
        if method == "HEAD" or st == 304:
            return ("none", 0)
        if te:
            return ("chunked", 0)
        if cl:
            return ("len", int(cl[0]))
        return ("close", 0)
    if te:
        return ("chunked", 0)
    if cl:
        return ("len", int(cl[0]))
    return ("none", 0)


def asks_close(v, hdrs):
    t = tokens(hdrs, "connection")
    return "close" in t or (v != "1.1" and "keep-alive" not in t)


class Wire:
    """Feeds on bytes written by hyper, yields events:
    ('head', start, hdrs, framing) ('interim', start, hdrs) ('data', bytes) ('end', trailers)
    ('raw', bytes) after an upgrade, ('bad', why)."""

    def __init__(self, kind, method_of=None):
        self.kind = kind
        self.method_of = method_of or (lambda i: None)
        self.buf = b""
        self.st = "head"
        self.left = 0
        self.nmsg = 0
        self.dead = False
        self.total = 0

    def feed(self, b):
        self.total += len(b)
        if self.dead:
            return []
        self.buf += b
        out = []
        try:
            while self.step(out):
                pass
        except Bad as e:
            self.dead = True
            out.append(("bad", str(e)))
        return out

    def line(self):
        i = self.buf.find(b"\n")
        if i < 0:
            if len(self.buf) > 200000:
                raise Bad("endless line")
            return None
        l = self.buf[:i + 1]
        if not l.endswith(b"\r\n") or b"\r" in l[:-2]:
            raise Bad("line ending")
        self.buf = self.buf[i + 1:]
        return l[:-2]

    def step(self, out):
        if self.st == "raw":
            if self.buf:
                out.append(("raw", self.buf))
                self.buf = b""
            return False
        if self.st == "head":
            if not self.buf:
                return False
            i = self.buf.find(b"\r\n\r\n")
            if i < 0:
                want = b"HTTP/1." if self.kind == "res" else b""
                if not self.buf[:7].startswith(want[:len(self.buf)]):
                    raise Bad("not a message")
                return False
            raw, self.buf = self.buf[:i + 4], self.buf[i + 4:]
            start, hdrs = parse_head(raw, self.kind)
            m = self.method_of(self.nmsg)
            fr = framing(start, hdrs, self.kind, m)
            if self.kind == "res" and start["st"] < 200 and start["st"] != 101:
                out.append(("interim", start, hdrs))
                return True
            out.append(("head", start, hdrs, fr))
            self.nmsg += 1
            if fr[0] == "up":
                self.st = "raw"
            elif fr[0] == "none" or fr == ("len", 0):
                out.append(("end", None))
            elif fr[0] == "len":
                self.st, self.left = "len", fr[1]
            elif fr[0] == "chunked":
                self.st = "size"
            else:
                self.st = "close"
            return True
        if self.st == "len":
            if not self.buf:
                return False
            d, self.buf = self.buf[:self.left], self.buf[self.left:]
            self.left -= len(d)
            out.append(("data", d))
            if self.left == 0:
                out.append(("end", None))
                self.st = "head"
            return True
        if self.st == "close":
            if self.buf:
                out.append(("data", self.buf))
                self.buf = b""
            return False
        if self.st == "size":
            l = self.line()
            if l is None:
                return False
            if not re.match(rb"^[0-9A-Fa-f]+$", l):
                raise Bad("chunk size")
            self.left = int(l, 16)
            if self.left == 0:
                self.st, self.tr = "trailer", []
            else:
                self.st = "chunk"
            return True
        if self.st == "chunk":
            if not self.buf:
                return False
            d, self.buf = self.buf[:self.left], self.buf[self.left:]
            self.left -= len(d)
            out.append(("data", d))
            if self.left == 0:
                self.st = "crlf"
            return True
        if self.st == "crlf":
            if len(self.buf) < 2:
                if self.buf and self.buf != b"\r":
                    raise Bad("chunk end")
                return False
            if self.buf[:2] != b"\r\n":
                raise Bad("chunk end")
            self.buf = self.buf[2:]
            self.st = "size"
            return True
        if self.st == "trailer":
            l = self.line()
            if l is None:
                return False
            if l == b"":
                out.append(("end", self.tr))
                self.st = "head"
                return True
            m = FIELD.match(l)
            if not m:
                raise Bad("trailer line")
            self.tr.append((lat(m[1]), lat(m[2])))
            return True
        raise Bad("state")


# ---- server traces ----------------------------------------------------------------

def resp_close(spec):
    hd = [(a, b) for a, b in (spec.get("headers") or [])]
    t = tokens(hd, "connection")
    if "close" in t:
        return True
    return spec.get("version") == "1.0" and "keep-alive" not in t


def body_len(spec):
    return sum(f[1] if f[0] == "d" else len(f[1]) if f[0] == "s" else 0 for f in (spec.get("body") or {}).get("q", []))


def server_trace(sc, recs, ev, wire, slack=0, mark=False):
    """Projects the raw log of a server scenario onto H1ServerObs events."""
    cfg = sc["cfg"]
    out = []
    used = {}
    for k in range(len(recs)):
        rs = sc.get("reqs") or [{}]
        r = rs[min(k, len(rs) - 1)]
        if r.get("resp", "now") in ("now", "bodyend"):
            used[k] = r.get("r") or {}
    called = [0]

    def method(i):
        return "HEAD" if i < len(recs) and recs[i]["head"] and i < called[0] else None
    w = Wire("res", method)
    got, wrote = {}, {}
    frames = {}     # k -> list of end offsets of produced data frames
    resi = -1
    dirty = False
    for e in ev:
        t = e[0]
        if t == "end":
            break
        if t == "step":
            if mark:
                out.append({"e": "step"})
            st = sc["steps"][e[1]]
            subs = st[1] if st[0] == "norun" else [st]
            for x in subs:
                if x[0] == "respond":
                    used[x[1]] = x[2]
        elif t == "skip":
            if e[1] == "respond":
                used.pop(e[2], None)
        elif t == "rd":
            out.append({"e": "rd", "n": e[1], "rem": e[2]})
        elif t == "rderr":
            out.append({"e": "rderr"})
        elif t in ("wrerr", "wr0", "flerr"):
            out.append({"e": "werr"})
        elif t == "wr":
            out.append({"e": "wr", "n": len(e[1])})
            dirty = True
            for x in w.feed(unlat(e[1])):
                if x[0] == "interim":
                    out.append({"e": "o100", "st": x[1]["st"]})
                elif x[0] == "head":
                    resi += 1
                    v = x[1]["v"]
                    cl = asks_close(v, x[2])
                    fr = x[3][0]
                    out.append({"e": "oh", "st": x[1]["st"], "close": cl or fr == "close", "selfd": fr not in ("close", "up"),
                                "fr": fr, "n": x[3][1], "up": fr == "up"})
                elif x[0] == "data":
                    o = wrote.get(resi, 0)
                    ok = resi < len(recs) and x[1] == pattern(resi, o, len(x[1]))
                    if resi >= called[0]:
                        ok = True
                    wrote[resi] = o + len(x[1])
                    out.append({"e": "ob", "n": len(x[1]), "ok": ok})
                elif x[0] == "end":
                    out.append({"e": "oe"})
                elif x[0] == "raw":
                    out.append({"e": "oraw", "n": len(x[1])})
                elif x[0] == "bad":
                    out.append({"e": "bad", "why": x[1]})
        elif t == "fl":
            if dirty:
                out.append({"e": "fl"})
                dirty = False
        elif t == "sd":
            out.append({"e": "sd"})
        elif t == "call":
            k, info = e[1], e[2]
            called[0] = max(called[0], k + 1)
            m = re.match(r"^/(\d+)$", info["u"])
            out.append({"e": "call", "k": k, "p": int(m[1]) if m else -1,
                        "lo": info["hint"][0], "hi": -1 if info["hint"][1] is None else info["hint"][1],
                        "eos": info["hint"][2]})
        elif t == "rb":
            k = e[1]
            x = e[2]
            if x == "d":
                d = unlat(e[3])
                o = got.get(k, 0)
                got[k] = o + len(d)
                out.append({"e": "rb", "k": k, "t": "d", "n": len(d), "ok": d == pattern(k, o, len(d)),
                            "lo": e[4][0], "hi": -1 if e[4][1] is None else e[4][1], "eos": e[4][2], "was": e[5]})
            elif x == "t":
                exp = recs[k].get("trl") if k < len(recs) else None
                out.append({"e": "rb", "k": k, "t": "t", "was": e[5], "ok": exp is None or sorted(map(list, e[3])) == sorted(exp)})
            elif x == "err":
                out.append({"e": "rb", "k": k, "t": "err", "d": e[3]["d"]})
            else:
                out.append({"e": "rb", "k": k, "t": x})
        elif t == "svc":
            k = e[1]
            sp = used.get(k, {})
            out.append({"e": "svc", "k": k, "r": e[2], "st": sp.get("status", 200), "close": resp_close(sp),
                        "ka": "keep-alive" in tokens(sp.get("headers", []), "connection"),
                        "nobody": (k < len(recs) and recs[k]["head"]) or sp.get("status", 200) in (204, 304)})
        elif t == "svcdrop":
            out.append({"e": "svcdrop", "k": e[1]})
        elif t == "bp":
            if e[1] != "s":
                continue
            k = e[2]
            d = {"e": "bp", "k": k, "t": e[3]}
            if e[3] == "d":
                fs = frames.setdefault(k, [])
                fs.append((fs[-1] if fs else 0) + e[4])
                d["n"] = e[4]
                d["o"] = sum(1 for f in fs if f > wrote.get(k, 0))
            elif e[3] == "p":
                pass
            out.append(d)
        elif t == "bd":
            if e[1] == "s":
                out.append({"e": "bd", "k": e[2], "done": e[3]})
        elif t == "conn":
            out.append({"e": "conn", "r": e[1], "k": e[2]["k"] if len(e) > 2 else "", "d": e[2]["d"] if len(e) > 2 else ""})
        elif t in ("conndrop", "graceful", "spin"):
            out.append({"e": t})
        elif t == "panic":
            out.append({"e": "panic", "why": str(e[1])[:200]})
        elif t == "abort":
            out.append({"e": "panic" if e[1] != "unexplored" else "skip", "why": e[1]})
        elif t == "t":
            out.append({"e": "t", "t": e[1]})
        elif t == "q":
            q = e[1]
            out.append({"e": "q", "t": q["t"], "conn": q["conn"], "left": q["in"], "term": q["term"],
                        "ok": q["ok"], "oq": len(q["oq"]), "sq": q["sq"]})
    mode = cfg.get("mode", "plain")
    scn = dict(reqs=[{a: b for a, b in r.items() if a != "trl"} for r in recs], ka=cfg.get("keep_alive", True), hc=cfg.get("half_close", False),
               maxbuf=cfg.get("max_buf", 8192 + 4096 * 100), hrt=cfg.get("hrt") or -1, mode=mode,
               slack=slack, total=len(wire), vec=bool(cfg.get("vectored")) and cfg.get("writev", True) is not False,
               pf=bool(cfg.get("pipeline_flush")))
    return {"sc": scn, "ev": out}
