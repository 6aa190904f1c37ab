"""HTTP/2: random scenarios around a scripted raw-frame peer, and the projection of what the
harness recorded onto the events of H2Obs and H2PingObs."""
import random
import hpack
from h1 import pattern

DEFWIN = {"server": (1 << 20, 1 << 20), "client": (2 << 20, 5 << 20)}
MAX31 = (1 << 31) - 1


def windows(role, cfg):
    if cfg.get("adaptive"):
        return 65535, 65535
    s, c = DEFWIN[role]
    return cfg.get("swin", s), cfg.get("cwin", c)


def code(c):
    return 2 if c is None else c


def noup(sp):
    return sp.get("up") in (None, "drop")


def empty(sp):
    sp = sp or {"end": True}
    return bool(sp.get("end")) and not sp.get("q") and sp.get("eos", True)


# ---- semantic traces ------------------------------------------------------------

def trace(sc, ev):
    role = sc["role"]
    srv = role == "server"
    cfg = sc["cfg"]
    swin, cwin = windows(role, cfg)
    pset = (cfg.get("peer") or {}).get("set") or {}
    codes = {int(a): b for a, b in sc.get("codes", {}).items()}
    F = hpack.Frames(not srv)
    out = []
    inq, rd, pushed = [], 0, 0
    byc = {}                   # call index -> exchange
    bysid, sids = {}, {}       # stream id -> exchange
    off, roff, uoff, ruoff = {}, {}, {}, {}
    keyof = {}                 # exchange -> pattern key of hyper's own body
    nx = [0]
    tun = set()
    uw_key = {}
    inbody = {}

    def x_of(sid):
        if srv:
            x = (sid + 1) // 2
            bysid[sid] = x
            nx[0] = max(nx[0], x)
            return x
        return bysid.get(sid, 0)

    def app(k):
        """exchange of the harness's index"""
        if srv:
            return byc.get(k, 0)
        nx[0] = max(nx[0], k + 1)
        return k + 1

    def add(e, **k):
        k["e"] = e
        out.append(k)

    def outframe(f):
        t = f["t"]
        if t == "set":
            add("os", ack=f["ack"], iws=f["v"].get(4, -1), mfs=f["v"].get(5, -1))
        elif t == "ping":
            add("op", ack=f["ack"], c={0x3b: "user", 0x0b: "shut"}.get(f["p"][0], "other"))
        elif t == "goaway":
            add("og", last=f["last"], c=f["c"])
        elif t == "win":
            add("ow", k=x_of(f["s"]) if f["s"] else 0, n=f["n"])
        elif t == "rst":
            add("or", k=x_of(f["s"]), c=min(f["c"], 1000))
        elif t == "head":
            h = f["h"]
            d = dict(h)
            if srv:
                x = x_of(f["s"])
                if ":status" in d:
                    st = int(d[":status"])
                    key = keyof.get(x, -1)
                    add("oh", k=x, es=f["es"], tr=False, inf=st < 200, st=st, s=f["s"], ok=d.get("x-k") == str(key))
                else:
                    add("oh", k=x, es=f["es"], tr=True, inf=False, st=0, s=f["s"], ok=h == [("tr-k", str(keyof.get(x, -1)))])
            elif ":method" in d:
                i = int(d.get(":path", d.get(":authority", "0")).strip("/h:") or 0) if d[":method"] != "CONNECT" or ":path" in d else int(d[":authority"].split(":")[1]) - 1000
                x = i + 1
                nx[0] = max(nx[0], x)
                bysid[f["s"]] = x
                keyof[x] = i
                add("oh", k=x, es=f["es"], tr=False, inf=False, st=0, s=f["s"], ok=d.get("x-k") == str(i))
            else:
                x = x_of(f["s"])
                add("oh", k=x, es=f["es"], tr=True, inf=False, st=0, s=f["s"], ok=h == [("tr-k", str(keyof.get(x, -1)))])
        elif t == "data":
            x = x_of(f["s"])
            o = off.get(x, 0)
            n = len(f["d"])
            key = (50 + keyof.get(x, 0)) if x in tun else keyof.get(x, -1)
            off[x] = o + n
            add("od", k=x, n=n, es=f["es"], ok=key >= 0 and f["d"] == pattern(key, o, n))
        else:
            add("ox")

    def peerframe(i):
        t = i["t"]
        if t == "set":
            v = i.get("v") or {}
            add("ps", ack=False, iws=v.get("iws", -1), mcs=v.get("mcs", -1))
        elif t == "setack":
            add("ps", ack=True, iws=-1, mcs=-1)
        elif t == "pong":
            add("pp", ack=True, c=i["c"])
        elif t == "ping":
            add("pp", ack=False, c="other")
        elif t == "goaway":
            add("pg", last=i["last"], c=i["c"])
        elif t == "win":
            add("pw", k=x_of(i["s"]) if i["s"] else 0, n=i["n"])
        elif t == "rst":
            add("pr", k=x_of(i["s"]), c=i["c"])
        elif t == "data":
            add("pd", k=x_of(i["s"]), n=i["n"], es=i["es"], over=i["over"])
        elif t == "trl":
            add("pt", k=x_of(i["s"]))
        elif t == "head":
            d = dict(map(tuple, i["h"]))
            x = x_of(i["s"])
            cn = d.get(":method") == "CONNECT"
            if srv:
                sids[i["s"]] = x
            add("ph", k=x, es=i["es"], inf=i["inf"], st=int(d.get(":status", 0)), cn=cn, cl=d.get("content-length", "0") != "0")
        elif t == "raw":
            add("px")

    def sidof(x):
        for s, y in bysid.items():
            if y == x:
                return s
        return -1

    def flush_in():
        while inq and inq[0][0] <= rd:
            peerframe(inq.pop(0)[1])

    for e in ev:
        t = e[0]
        if t == "wr":
            try:
                for f in F.feed(e[1].encode("latin-1")):
                    outframe(f)
            except (hpack.Bad, IndexError) as b:
                add("ox")
        elif t == "pf":
            pushed += e[2]
            inq.append((pushed, e[1]))
        elif t == "rd":
            if e[1] == 0:
                add("peof")
            rd += e[1]
            flush_in()
        elif t == "rderr":
            add("perr")
        elif t == "wrerr" or t == "wr0":
            add("werr")
        elif t == "call":
            u = e[2]["u"]
            sid = int(u.rstrip("/").split("/")[-1]) if "/" in u else int(u.split(":")[1]) - 1000
            x = x_of(sid)
            byc[e[1]] = x
            keyof[x] = e[1]
            hd = dict(map(tuple, e[2]["h"]))
            h = e[2]["hint"]
            add("call", k=x, s=sid, ok=hd.get("x-s") == str(sid), code=code(codes.get(e[1])))
            if noup(sc["reqs"][min(e[1], len(sc["reqs"]) - 1)]):
                add("ud", k=x)
        elif t == "svc":
            x = app(e[1])
            sp = sc["reqs"][min(e[1], len(sc["reqs"]) - 1)]
            add("svc", k=x, r=e[2], st=sp.get("r", {}).get("status", 200))
        elif t == "svcdrop":
            add("svcdrop", k=app(e[1]))
        elif t == "send":
            add("send", k=app(e[1]), code=code(codes.get(e[1])), cn=sc["sends"][str(e[1])].get("m") == "CONNECT",
                emp=empty(sc["sends"][str(e[1])].get("body")))
        elif t == "res":
            x = app(e[1])
            if e[2] == "ok":
                hd = dict(map(tuple, e[3]["h"]))
                add("res", k=x, r="ok", ok=hd.get("x-s") == str(sidof(x)), back=False, to=False, st=e[3]["s"], c=-1)
                if noup(sc["sends"][str(e[1])]):
                    add("ud", k=x)
            else:
                add("res", k=x, r="err", ok=True, back=bool(e[4]), to="timeout" in e[3]["k"], st=0,
                    c=-1 if e[3]["h2"] is None else min(e[3]["h2"], 1000))
        elif t == "resdrop":
            add("resdrop", k=app(e[1]))
        elif t == "txdrop":
            add("txdrop")
        elif t == "rb" and e[2] != "p":
            x = app(e[1])
            if e[2] == "d":
                o = roff.get(x, 0)
                d = e[3].encode("latin-1")
                roff[x] = o + len(d)
                add("rb", k=x, t="d", n=len(d), ok=d == pattern(sidof(x), o, len(d)))
            elif e[2] == "t":
                add("rb", k=x, t="t", n=0, ok=e[3] == [["tr-s", str(sidof(x))]])
            elif e[2] == "err":
                add("rb", k=x, t="err", n=0, ok=True)
            else:
                add("rb", k=x, t=e[2], n=0, ok=True)
        elif t == "bp" and e[3] != "p":
            add("bp", k=app(e[2]), t=e[3], n=e[4] if len(e) > 4 else 0)
        elif t == "be":
            add("be", k=app(e[1]))
        elif t == "bd":
            add("bd", k=app(e[2]), done=e[3])
        elif t == "up":
            x = app(e[1])
            if e[2] == "ok":
                tun.add(x)
            add("up", k=x, r=e[2])
        elif t == "uw":
            add("uw", k=app(e[1]), n=e[2])
        elif t == "uwerr":
            add("uwerr", k=app(e[1]))
        elif t == "usc":
            add("usc", k=app(e[1]))
        elif t == "us":
            add("us", k=app(e[1]), ok=e[2])
        elif t == "ur":
            x = app(e[1])
            o = ruoff.get(x, 0)
            d = e[2].encode("latin-1")
            ruoff[x] = o + len(d)
            add("ur", k=x, n=len(d), ok=d == pattern(sidof(x), o, len(d)))
        elif t == "urerr":
            add("urerr", k=app(e[1]))
        elif t in ("ud", "updrop"):
            add("ud", k=app(e[1]))
        elif t == "conn":
            add("conn", r=e[1], to=len(e) > 2 and "timeout" in e[2]["k"])
        elif t == "hs":
            add("hs", r=e[1])
        elif t == "conndrop":
            add("conndrop")
        elif t == "iodrop":
            add("iodrop")
        elif t == "graceful":
            add("graceful")
        elif t == "t":
            add("t", t=e[1])
        elif t == "panic" and "!self.has_streams()" in str(e[1]):
            pass               # a debug assertion of the h2 crate about streams it leaked itself (see Leaked in H2Obs)
        elif t in ("spin", "panic", "abort"):
            add("crash", c="ANY." + t)
        elif t == "end":
            add("end")
            break
        elif t == "q":
            q = e[1]
            n = nx[0]
            add("q", t=q["t"], ok=q["ok"], inn=q["in"], term=q["term"], conn=q["conn"], tasks=q["tasks"],
                oq=sorted(app(k) for k in q["oq"]), sq=q["sq"], pcw=min(q["pcw"], MAX31),
                pq=[[x_of(a), b, max(-MAX31, min(w, MAX31))] for a, b, w in q["pq"]],
                ups=[[app(a), b, c] for a, b, c, d, f in q.get("ups", [])],
                rq=sorted(app(k) for k in q.get("rq", [])),
                usd=sorted(app(a) for a, b, c, d, f in q.get("ups", []) if d))
    m = dict(role=role, n=max(nx[0], 1), swin=swin, cwin=cwin, iws=min(pset.get("iws", 65535), MAX31), mcs=pset.get("mcs", -1),
             sendbuf=cfg.get("sendbuf", 400 * 1024 if srv else 1 << 20), adaptive=bool(cfg.get("adaptive")),
             int=cfg.get("ka_int", -1), to=cfg.get("ka_to", 20000), idle=True if srv else bool(cfg.get("ka_idle")),
             maxstreams=cfg.get("maxstreams", 200) if srv else -1, initsend=cfg.get("initsend", 100))
    return {"sc": m, "ev": out}


# ---- random scenarios -------------------------------------------------------------

def body_spec(R, key, opt, ended=None):
    """an outgoing body: what it has at first, and the steps that complete it"""
    big = opt.get("big", 0.1) * (not opt.get("tiny"))
    sizes = [1, 5, 40, 300] + ([0] if R.random() < 0.2 else []) + ([20000, 70000, 100000] if R.random() < big else [])
    n = R.choice([0, 0, 1, 1, 2, 3, 5])
    fr = [["d", R.choice(sizes)] for _ in range(n)]
    x = R.random()
    berr = R.random() < opt.get("berr", 0.1)
    if berr:
        fr.append(["e", key if key is not None else None])
    elif x < 0.25:
        fr.append(["t", None])
    k = R.randint(0, len(fr))
    return fr, k, berr


def mk_body(R, idx, c, opt):
    fr, k, berr = body_spec(R, c, opt)
    for f in fr:
        if f[0] == "t":
            f[1] = [["tr-k", str(idx)]]
    first = fr[:k]
    end_now = k == len(fr) and R.random() < 0.7 and not berr
    sp = {"q": first, "end": end_now}
    plain = all(f[0] == "d" for f in fr)
    if plain and R.random() < 0.4:
        tot = sum(f[1] for f in fr)
        sp["hint"] = [tot, tot]
    if R.random() < 0.3:
        sp["eos"] = False
    rest = [["b", idx, f] for f in fr[k:]]
    if not end_now and not berr:
        rest.append(["bend", idx])
    return sp, rest


def peer_head(srv, sid, m, extra=()):
    h = [[":method", m]]
    if m == "CONNECT":
        h += [[":authority", "h:%d" % (1000 + sid)]]
    else:
        h += [[":scheme", "http"], [":authority", "h"], [":path", "/%d" % sid]]
    return h + [["x-s", str(sid)]] + [list(x) for x in extra]


def gen(R, idx, opt):
    role = opt.get("role") or R.choice(["server", "client"])
    return gen_server(R, idx, opt) if role == "server" else gen_client(R, idx, opt)


def common_cfg(R, opt, srv):
    cfg = {"proto": 2, "vectored": R.random() < 0.5, "date": False}
    if R.random() < opt.get("small", 0.35):
        cfg["swin"] = R.choice([1, 20, 100, 1000, 16384, 65535])
        cfg["cwin"] = R.choice([65535, 65535, 66000, 100000])
    if R.random() < 0.15:
        cfg["maxframe"] = R.choice([16384, 20000])
    if R.random() < 0.2:
        cfg["sendbuf"] = R.choice([1, 100, 1000, 20000])
    if R.random() < 0.15:
        cfg["rcap"] = R.choice([1, 7, 40])
    if R.random() < 0.1:
        cfg["wcap"] = R.choice([1, 9, 100])
    if R.random() < opt.get("ka", 0.15):
        cfg["ka_int"] = R.choice([100, 300])
        cfg["ka_to"] = R.choice([50, 100, 400])
        if not srv:
            cfg["ka_idle"] = R.random() < 0.5
    if R.random() < opt.get("adaptive", 0.1):
        cfg.pop("swin", None), cfg.pop("cwin", None)
        cfg["adaptive"] = True
    ps = {}
    if R.random() < opt.get("iws", 0.4):
        ps["iws"] = R.choice([0, 1, 10, 300, 100000])
    if not srv:
        if R.random() < 0.15:
            ps["mcs"] = R.choice([1, 2])
        if R.random() < 0.1:
            cfg["initsend"] = R.choice([1, 2])
    peer = {"set": ps}
    if R.random() < 0.1:
        peer["autowin"] = True
    if R.random() < 0.1:
        peer["pong"] = False
    if R.random() < 0.15:
        peer["spong"] = False
    if R.random() < 0.05:
        peer["ack"] = False
    if R.random() < 0.07:
        peer["start"] = False
    cfg["peer"] = peer
    return cfg


def interleave(R, queues, extras, nsteps):
    """one sequence out of several, with some steps batched"""
    seq = []
    qs = [list(q) for q in queues if q]
    while qs and len(seq) < nsteps:
        if extras and R.random() < 0.3:
            seq.append(R.choice(extras)())
            continue
        q = R.choice(qs)
        seq.append(q.pop(0))
        if not q:
            qs.remove(q)
    return seq, qs


def batch(R, seq):
    out, i = [], 0
    while i < len(seq):
        n = R.choice([1, 1, 1, 2, 3, 5])
        b = seq[i:i + n]
        i += n
        if len(b) == 1 or any(s[0] in ("t",) for s in b):
            out += b
        else:
            out.append(["norun", b])
    return out


def gen_server(R, idx, opt):
    n = R.choice([1, 1, 2, 2, 3, 4])
    cfg = common_cfg(R, opt, True)
    tiny = min(cfg.get("swin", 99999), cfg["peer"]["set"].get("iws", 99999)) < 1000
    opt = dict(opt, tiny=tiny)
    if R.random() < 0.15:
        cfg["maxstreams"] = R.choice([1, 2])
    codes, reqs, queues, settle = {}, [], [], []
    order = []
    heads = []
    for c in range(n):
        sid = 2 * c + 1
        connect = R.random() < opt.get("connect", 0.12)
        codes[c] = R.choice([None, None, 7, 8, 11, 0]) if R.random() < 0.5 else None
        m = "CONNECT" if connect else R.choice(["GET", "POST", "POST"])
        # what the peer sends
        pq = []
        has = m == "POST" or (connect and R.random() < 0.8)
        chunks = [R.choice([1, 3, 50, 500] + ([30000, 70000] if R.random() < opt.get("big", 0.1) and not tiny else [])) for _ in range(R.randint(0, 4))] if has else []
        extra = []
        if m == "POST" and R.random() < 0.3:
            extra.append(("content-length", str(sum(chunks))))
        es = not has and not connect
        trl = m == "POST" and R.random() < 0.2
        pq.append(["ph", sid, peer_head(True, sid, m, extra), es, R.random() < 0.15])
        for j, z in enumerate(chunks):
            last = j == len(chunks) - 1
            pq.append(["pd", sid, z, last and not trl and R.random() < 0.5, R.choice([0, 0, 0, 3])])
        fin = ["pt", sid, [["tr-s", str(sid)]]] if trl else ["pd", sid, 0, True]
        if not es:
            if R.random() < 0.8:
                pq.append(fin)
            settle.append(fin)
        if R.random() < opt.get("prst", 0.12):
            pq.insert(R.randint(1, len(pq)), ["pr", sid, R.choice([8, 8, 0, 2, 7])])
        if R.random() < 0.5:
            pq.insert(R.randint(1, len(pq)), ["pw", sid, R.choice([1, 5, 1000, 50000])])
        # what the application does
        sp, rest = mk_body(R, c, codes[c], opt)
        r = {"status": 200, "headers": [["x-k", str(c)]], "body": sp}
        rq = {"body": R.choice(["read", "hold", "hold", 1, 2, "dropnow"]) if R.random() < opt.get("hold", 0.5) else "read", "code": codes[c]}
        aq = []
        how = R.choice(["now", "now", "manual", "manual", "bodyend", "err", "merr"]) if R.random() < 0.6 else "now"
        if connect:
            rq["up"] = R.choice([True, True, 2, "drop"])
            if R.random() < 0.8:
                r["body"], rest = {"q": [], "end": True}, []
            if R.random() < 0.1:
                r["status"] = 403
            how = R.choice(["now", "manual"])
            for _ in range(R.randint(0, 4)):
                aq.append(["uwp", c, 50 + c, None, 0])
        rq["resp"] = {"merr": "manual"}.get(how, how)
        rq["r"] = r
        if how == "manual":
            aq.insert(0, ["respond", c, r])
        elif how == "merr":
            aq.insert(0, ["svcerr", c, codes[c]])
        if how != "err" and how != "merr":
            aq += rest
        if rq["body"] not in ("read", "dropnow"):
            for _ in range(R.randint(0, 3)):
                aq.insert(R.randint(0, len(aq)), ["rb", c, R.choice([1, 1, 2, 9])])
        if R.random() < opt.get("rbdrop", 0.1):
            aq.insert(R.randint(0, len(aq)), ["rbdrop", c])
        if connect:
            for s in aq:
                if s[0] == "uwp":
                    s[4] = R.choice([1, 20, 400] + ([40000] if R.random() < 0.1 and not tiny else []))
            if R.random() < 0.5:
                aq.append([R.choice(["us", "us", "ud"]), c])
            if rq["up"] == 2:
                aq += [["ur", c, 3]]
                settle.append(["ur", c])
        reqs.append(rq)
        heads.append(pq[0])
        queues.append(pq)
        queues.append(aq)
        settle += [["rb", c], ["respond", c, r]] + ([["bend", c]] if how in ("manual", "now", "bodyend") and not any(f[0] == "e" for f in sp["q"]) and not any(s[0] == "b" and s[2][0] == "e" for s in rest) else [])
    extras = []
    if R.random() < opt.get("block", 0.3):
        extras += [lambda: ["wbset", R.choice([0, 5, 30])], lambda: ["wb", -1]]
    if R.random() < opt.get("graceful", 0.25):
        extras += [lambda: ["graceful"]]
    if R.random() < 0.4:
        extras += [lambda: ["t", R.choice([10, 50, 100, 300])]]
    if R.random() < 0.5:
        extras += [lambda: ["pw", 0, R.choice([1, 1000, 60000])]]
    if R.random() < 0.2:
        extras += [lambda: ["pp", R.randint(1, 9)]]
    if R.random() < 0.2:
        extras += [lambda: ["pauto", {R.choice(["pong", "spong", "autowin"]): R.random() < 0.5}]]
    seq, left = interleave(R, queues, extras, R.choice([8, 20, 60]))
    # stream ids are opened in increasing order
    hs = [s for s in seq if s[0] == "ph"]
    for a, b in zip([i for i, s in enumerate(seq) if s[0] == "ph"], sorted(hs, key=lambda s: s[1])):
        seq[a] = b
    x = R.random()
    if x < opt.get("eof", 0.08):
        seq.insert(R.randint(0, len(seq)), [R.choice(["eof", "rerr", "werr", "dropconn"])])
        dead = True
    else:
        dead = False
    if not cfg["peer"].get("start", True):
        seq.insert(R.randint(0, min(3, len(seq))), ["pstart"])
        if not R.random() < 0.5:
            seq.insert(0, ["graceful"])
    steps = batch(R, seq)
    if R.random() < 0.8:
        fin = [["wb", -1], ["pauto", {"ack": True, "pong": True, "spong": True, "autowin": True}], ["pw", 0, 1 << 20]]
        for c in range(n):
            fin.append(["pw", 2 * c + 1, 1 << 20])
        R.shuffle(settle)
        for q in left:
            fin += [s for s in q if s[0] != "ph"]
        fin += settle
        if R.random() < 0.7:
            fin += [["graceful"], ["t", 200]]
        steps += fin
    sc = {"id": idx, "role": "server", "seed": R.randrange(0, 1 << 30), "cfg": cfg, "reqs": reqs, "steps": steps,
          "codes": {str(k): v for k, v in codes.items()}}
    return sc


def gen_client(R, idx, opt):
    n = R.choice([1, 1, 2, 2, 3, 4])
    cfg = common_cfg(R, opt, False)
    tiny = min(cfg.get("swin", 99999), cfg["peer"]["set"].get("iws", 99999)) < 1000
    opt = dict(opt, tiny=tiny)
    codes, sends, queues, settle, sendq = {}, {}, [], [], []
    dying = R.random() < opt.get("eof", 0.08)
    for i in range(n):
        sid = 2 * i + 1
        connect = R.random() < opt.get("connect", 0.12)
        codes[i] = R.choice([None, None, 7, 8, 11]) if R.random() < 0.5 else None
        m = "CONNECT" if connect else R.choice(["GET", "POST", "POST"])
        sp, rest = mk_body(R, i, codes[i], opt)
        if m == "GET" and R.random() < 0.7 or connect:
            sp, rest = {"q": [], "end": True}, []
        rb = R.choice(["read", "hold", "hold", 1, 2, "dropnow"]) if R.random() < opt.get("hold", 0.5) else "read"
        s = {"m": m, "u": "h:%d" % (1000 + i) if connect else "http://h/%d" % i, "h": [["x-k", str(i)]], "body": sp, "rbody": rb, "try": R.random() < 0.7}
        if connect:
            s["up"] = R.choice([True, True, 2, "drop"])
        sends[str(i)] = s
        aq = [["send", i, s]] + rest
        if R.random() < opt.get("dropres", 0.12):
            aq.insert(R.randint(1, len(aq)), ["dropres", i])
        if rb not in ("read", "dropnow"):
            for _ in range(R.randint(0, 3)):
                aq.append(["rb", i, R.choice([1, 1, 2, 9])])
        if R.random() < opt.get("rbdrop", 0.1):
            aq.append(["rbdrop", i])
        if connect:
            for _ in range(R.randint(0, 4)):
                aq.append(["uwp", i, 50 + i, None, R.choice([1, 20, 400] + ([40000] if R.random() < 0.1 and not tiny else []))])
            if R.random() < 0.5:
                aq.append([R.choice(["us", "us", "ud"]), i])
            if s["up"] == 2:
                aq += [["ur", i, 3]]
                settle.append(["ur", i])
        sendq.append(aq[0])
        queues.append(aq)
        # the peer
        st = "200" if not connect or R.random() < 0.85 else "403"
        pq = []
        if R.random() < 0.15 and not connect:
            pq.append(["ph", sid, [[":status", "103"], ["x-s", str(sid)]], False])
        chunks = [R.choice([1, 3, 50, 500] + ([30000, 70000] if R.random() < opt.get("big", 0.1) and not tiny else [])) for _ in range(R.randint(0, 4))]
        extra = [["content-length", str(sum(chunks))]] if R.random() < 0.25 and not connect else []
        es = R.random() < 0.2 and not connect
        if es:
            chunks, extra = [], []
        trl = not connect and R.random() < 0.2
        pq.append(["ph", sid, [[":status", st], ["x-s", str(sid)]] + extra, es, R.random() < 0.15])
        for j, z in enumerate(chunks):
            pq.append(["pd", sid, z, j == len(chunks) - 1 and not trl and R.random() < 0.5, R.choice([0, 0, 0, 3])])
        fin = ["pt", sid, [["tr-s", str(sid)]]] if trl else ["pd", sid, 0, True]
        if not es:
            if R.random() < 0.8:
                pq.append(fin)
        if R.random() < opt.get("prst", 0.12):
            pq.insert(R.randint(0, len(pq)), ["pr", sid, R.choice([8, 8, 0, 2, 7, 7])])
        if R.random() < 0.5:
            pq.insert(R.randint(0, len(pq)), ["pw", sid, R.choice([1, 5, 1000, 50000])])
        queues.append(pq)
        settle += [["rb", i], ["ph", sid, [[":status", "200"], ["x-s", str(sid)]], False], fin]
        if not any(f[0] == "e" for f in sp["q"]) and not any(q[0] == "b" and q[2][0] == "e" for q in rest):
            settle.append(["bend", i])
    extras = []
    if R.random() < opt.get("block", 0.3):
        extras += [lambda: ["wbset", R.choice([0, 5, 30])], lambda: ["wb", -1]]
    if R.random() < 0.4:
        extras += [lambda: ["t", R.choice([10, 50, 100, 300])]]
    if R.random() < 0.5:
        extras += [lambda: ["pw", 0, R.choice([1, 1000, 60000])]]
    if R.random() < 0.1:
        extras += [lambda: ["pset", {"iws": R.choice([65535, 100000, 200000])}]]
    if R.random() < 0.2:
        extras += [lambda: ["pauto", {R.choice(["pong", "autowin"]): R.random() < 0.5}]]
    if cfg["peer"]["set"].get("mcs"):
        extras += [lambda: ["t", 10]]
    seq, left = interleave(R, queues, extras, R.choice([8, 20, 60]))
    if R.random() < opt.get("goaway", 0.12):
        seq.insert(R.randint(0, len(seq)), ["pg", R.choice([0, 1, 3, 2147483647]), R.choice([0, 0, 0, 2])])
    if R.random() < opt.get("droptx", 0.12):
        seq.insert(R.randint(0, len(seq)), ["droptx"])
    if dying:
        seq.insert(R.randint(0, len(seq)), [R.choice(["eof", "eof", "rerr", "werr", "dropconn"])])
    if not cfg["peer"].get("start", True):
        seq.insert(R.randint(0, min(3, len(seq))), ["pstart"])
    steps = batch(R, seq)
    if R.random() < 0.8:
        fin = [["wb", -1], ["pauto", {"ack": True, "pong": True, "spong": True, "autowin": True}], ["pw", 0, 1 << 20]]
        for i in range(n):
            fin.append(["pw", 2 * i + 1, 1 << 20])
        for q in left:
            fin += [s for s in q if s[0] not in ("pr",)]
        R.shuffle(settle)
        settle.sort(key=lambda s: 0 if s[0] == "ph" else 1)
        fin += settle + [["t", 50]]
        if R.random() < 0.4:
            fin += [["droptx"], ["t", 10]]
        steps += fin
    return {"id": idx, "role": "client", "seed": R.randrange(0, 1 << 30), "cfg": cfg, "steps": steps, "sends": sends,
            "codes": {str(k): v for k, v in codes.items()}}
