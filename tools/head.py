"""Concretizes the heads of Head.tla: which bytes, and back from bytes to tokens."""
import re

import h1

NAMES = {"a": "x-aa", "b": "accept-bb", "c": "cookie", "d": "set-cookie", "e": "user-agent", "g": "x_1!#$%&'*+.^`|~zz", "h": "via", "i": "referer"}


def form(n, f):
    if f == "upper":
        return n.upper()
    if f == "title":
        out, prev = "", "-"
        for ch in n:
            out += ch.upper() if prev == "-" else ch
            prev = ch
        return out
    if f == "mixed":
        return "".join(ch.upper() if i % 2 else ch for i, ch in enumerate(n))
    return n


VALUES = {
    "plain": lambda i: "v%d" % i,
    "empty": lambda i: "",
    "inner": lambda i: "a b\tc  d%d" % i,
    "high": lambda i: "\x80\xe9\xff%d" % i,
    "comma": lambda i: "a, b,, c=%d" % i,
    "quote": lambda i: '"q\\"%d; x": {}[]@/?' % i,
    "long": lambda i: "L" * 300 + str(i),
    "colon": lambda i: ": :%d:" % i,
}
OWS = ["", " ", "\t", "  \t "]
TARGETS = ["/0", "/0?q=1&r=%20", "/0/./..//x;p=1,2", "/0?", "/%C3%A9~-_.!$'()*+:@", "http://h.example:80/0?x=http://y/", "*", "/" + "p" * 300, "h:443"]
METHODS = ["GET", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "HEAD", "FOO", "get", "M-SEARCH", "X!#$%&'*+-.^_`|~9"]
REASONS = ["canon", "custom", "empty", "high", "long"]
STATUSES = [200, 201, 206, 299, 301, 404, 418, 451, 500, 503, 599, 600, 999]
CANON = {200: "OK", 201: "Created", 206: "Partial Content", 301: "Moved Permanently", 404: "Not Found", 418: "I'm a teapot", 451: "Unavailable For Legal Reasons",
         500: "Internal Server Error", 503: "Service Unavailable"}


def reason(c):
    r = c["rs"]
    return {"canon": CANON.get(c["st"], "Whatever"), "custom": "My Own Reason", "empty": "", "high": "R\xe9\x80son\t x", "long": "r" * 200}[r]


def line(l, i, R):
    n = form(NAMES[l["n"]], l["f"])
    v = VALUES[l["v"]](i)
    if l["k"] == "badval":
        v = v + R.choice(["\x01", "\x7f", "\x1f"]) + "z"
    if l["k"] == "badname":
        n = n[:2] + R.choice(["@", "(", "\x80"]) + n[2:]
    if l["k"] == "fold":
        v = v + R.choice(["", " ", "\t "]) + "\r\n" + R.choice([" ", "\t", "  "]) + "w"
    return n + (" " if l["k"] == "sp" else "") + ":" + R.choice(OWS) + v + R.choice(OWS) + "\r\n"


def tok(case, n, v):
    """(name, value) as delivered -> the record Head.tla speaks of"""
    back = {x: k for k, x in NAMES.items()}
    nm = back.get(n, "?" + n)
    for i, l in enumerate(case["lines"]):
        w = VALUES[l["v"]](i)
        if l["k"] == "fold":
            # the fold may be replaced by any white space
            x = re.sub(r"[ \t]+w$", " w", v)
            w = w + " w"
        else:
            x = v
        if w == x and l["n"] == nm:
            if l["v"] != "empty":
                return {"n": nm, "v": val(l, i)}
            return {"n": nm, "v": "empty"}
    for i, a in enumerate(case["app"]):
        if VALUES[a["cv"]](100 + i) == v and a["n"] == nm:
            return {"n": nm, "v": a["v"]}
    return {"n": nm, "v": "?" + v[:40]}


def val(l, i):
    return "empty" if l["v"] == "empty" else "%s.%d" % (l["v"], i)


def complete(case, R):
    """adds start line and application fields to an enumerated or random case"""
    c = dict(case)
    c["m"] = R.choice(METHODS) if R.random() < 0.7 else "GET"
    c["u"] = R.choice(TARGETS) if R.random() < 0.7 else "/0"
    if c["u"] == "*":
        c["m"] = "OPTIONS"
    if c["u"] == "h:443":
        c["m"] = "CONNECT"
    c["v"] = R.choice(["1.1", "1.1", "1.0"])
    c["st"] = R.choice(STATUSES) if R.random() < 0.7 else 200
    c["rs"] = R.choice(REASONS) if R.random() < 0.7 else "canon"
    if c["m"] == "CONNECT" and c["st"] < 300:
        c["st"] = 404
    if c["role"] == "client":
        # httparse reports a reason with bytes above 127 as empty
        if c["rs"] == "high":
            c["rs"] = "custom"
        # what was received is sent on over the same connection, which has to stay open
        if c["echo"]:
            c["v"] = "1.1"
            c["m"] = "GET" if c["m"] == "CONNECT" else c["m"]
            c["u"] = "/0" if c["u"] == "h:443" else c["u"]
    n = R.choice([0, 1, 2, 3, 4])
    c["app"] = []
    for i in range(n):
        x = R.choice(list(NAMES))
        cv = R.choice(list(VALUES))
        c["app"].append({"n": x, "cv": cv, "v": "empty" if cv == "empty" else "%s.%d" % (cv, 100 + i), "f": ""})
    return c


def random_case(R):
    role = R.choice(["server", "client"])
    cfg = dict(ign=R.random() < 0.25, fold=role == "client" and R.random() < 0.3, sp=role == "client" and R.random() < 0.3,
               title=R.random() < 0.3, keep=R.random() < 0.4, max=100)
    kinds = ["ok"] * 12
    if R.random() < 0.4:
        kinds += ["sp", "badval", "badname"] + ([] if cfg["ign"] else ["fold", "fold"])
    ls = [{"n": R.choice(list(NAMES)[: R.choice([2, 8])]), "f": R.choice(["lower", "lower", "upper", "title", "mixed"]), "v": R.choice(list(VALUES)), "k": R.choice(kinds)}
          for _ in range(R.choice([0, 1, 2, 3, 4, 6, 10]))]
    for l in ls:
        if l["k"] == "fold" and l["v"] == "empty":
            l["v"] = "plain"
    fill = 0
    if R.random() < 0.2 and not any(l["k"] != "ok" for l in ls):
        cfg["max"] = R.choice([100, 20, 12, 150])
        fill = max(0, cfg["max"] - len(ls) - R.choice([0, 0, 1, -1, 3, -5]))
    return {"role": role, "lines": ls, "app": [], "echo": R.random() < 0.5, "cfg": cfg, "fill": fill}


def scenario(c, i, R):
    """c is completed; returns the scenario"""
    ls = [line(l, j, R) for j, l in enumerate(c["lines"])]
    # fillers keep their own order; they are placed among the others
    fs = ["x-f: %d\r\n" % j for j in range(c["fill"])]
    srv = c["role"] == "server"
    # client: the response head carries its framing; it counts as a field
    own = [] if srv else ["Content-Length: 0\r\n"]
    pos = sorted(R.randint(0, len(ls)) for _ in fs)
    allx = []
    k = 0
    for j in range(len(ls) + 1):
        while k < len(fs) and pos[k] == j:
            allx.append(fs[k])
            k += 1
        if j < len(ls):
            allx.append(ls[j])
    at = R.randint(0, len(allx))
    allx[at:at] = own
    cfg = {"vectored": R.random() < 0.5, "mode": R.choice(["plain", "upg"])}
    if c["cfg"]["title"]:
        cfg["title_case"] = True
    if c["cfg"]["keep"]:
        cfg["preserve_case"] = True
    if c["cfg"]["ign"]:
        cfg["ignore_invalid"] = True
    if c["cfg"]["fold"]:
        cfg["obs_fold"] = True
    if c["cfg"]["sp"]:
        cfg["sp_after_name"] = True
    mx = c["cfg"]["max"] + len(own)
    if mx != 100:
        cfg["max_headers"] = mx
    app = [[NAMES[a["n"]], VALUES[a["cv"]](100 + j)] for j, a in enumerate(c["app"])]
    if srv:
        wire = "%s %s HTTP/%s\r\n" % (c["m"], c["u"], c["v"]) + "".join(allx) + "\r\n"
        r = {"status": c["st"], "headers": app, "echo": c["echo"], "body": {"q": [], "end": True, "hint": "auto"}}
        if c["rs"] != "canon":
            r["reason"] = reason(c)
        reqs = [{"body": "read", "resp": "now", "r": r}]
        steps = []
    else:
        wire = "HTTP/%s %d %s\r\n" % (c["v"], c["st"], reason(c)) + "".join(allx) + "\r\n"
        rq = {"m": c["m"], "u": c["u"], "v": c["v"], "h": app, "try": True, "rbody": "read", "body": {"q": [], "end": True}}
        if c["echo"]:
            rq["h"] = []
        steps = [["send", 0, rq]]
        reqs = []
    b = wire.encode("latin-1")
    parts = [b] if R.random() < 0.5 else []
    if not parts:
        cuts = sorted(R.sample(range(1, len(b)), min(len(b) - 1, R.choice([1, 2, 5, 20]))))
        parts = [b[x:y] for x, y in zip([0] + cuts, cuts + [len(b)])]
    steps += [["in", h1.lat(p)] for p in parts]
    if not srv and c["echo"]:
        # what the response carried is sent on with the next request
        steps += [["send", 1, dict(rq, echo=0, h=[], u=c["u"])]]
    return {"id": i, "role": c["role"], "seed": R.choice([0, R.randrange(1 << 30)]), "cfg": cfg, "echo": True, "reqs": reqs, "steps": steps, "case": c}


MANAGED = {"date", "content-length", "transfer-encoding", "connection"}


def judged(c):
    """the case as Head.tla sees it: values made unique by position"""
    d = dict(c)
    d["lines"] = [dict(l, v=val(l, j)) for j, l in enumerate(c["lines"])]
    d["app"] = [{"n": a["n"], "v": a["v"], "f": ""} for a in c["app"]]
    return d


def obs(sc, ev):
    c = sc["case"]
    srv = c["role"] == "server"
    o = dict(panic=False, got=False, recv=[], start=True, hfill=0, sent=[], wstart=True, out=False, bad=False, why="")
    w = h1.Wire("res" if srv else "req", lambda i: c["m"])
    nth = 0
    want = 0 if srv or not c["echo"] else 1
    for e in ev:
        t = e[0]
        if t == "end":
            break
        if t == "panic" or (t == "abort" and e[1] != "unexplored"):
            o["panic"], o["why"] = True, str(e[1])[:200]
        elif t == "call" and not o["got"]:
            o["got"] = True
            x = e[2]
            o["start"] = x["m"] == c["m"] and x["u"] == c["u"] and x["v"] == c["v"]
            hs = x["h"]
            fill = [v for n, v in hs if n == "x-f"]
            o["hfill"] = len(fill) if fill == [str(j) for j in range(len(fill))] else -1
            o["recv"] = [tok(c, n, v) for n, v in hs if n != "x-f"]
        elif t == "res" and e[1] == 0 and e[2] == "ok":
            o["got"] = True
            x = e[3]
            can = CANON.get(x["s"], None)
            o["start"] = x["s"] == c["st"] and x["v"] == c["v"] and x.get("reason", can) == reason(c)
            hs = [y for y in x["h"] if y[0] != "content-length"]
            fill = [v for n, v in hs if n == "x-f"]
            o["hfill"] = len(fill) if fill == [str(j) for j in range(len(fill))] else -1
            o["recv"] = [tok(c, n, v) for n, v in hs if n != "x-f"]
        elif t == "wr":
            for x in w.feed(h1.unlat(e[1])):
                if x[0] == "bad":
                    o["bad"], o["why"] = True, x[1]
                if x[0] != "head":
                    continue
                if nth == want and not o["out"]:
                    o["out"] = True
                    s = x[1]
                    if srv:
                        o["wstart"] = s["st"] == c["st"] and (c["rs"] == "canon" or s["reason"] == reason(c))
                    else:
                        o["wstart"] = s["m"] == c["m"] and s["u"] == c["u"] and s["v"] == c["v"]
                    for n, v in x[2]:
                        if n.lower() in MANAGED or n.lower() == "x-f":
                            continue
                        y = tok(c, n.lower(), v)
                        f = [z for z in ("lower", "title", "upper", "mixed") if form(n.lower(), z) == n]
                        y["f"] = f[0] if f else "?" + n
                        o["sent"].append(y)
                nth += 1
    if srv and o["out"] and not o["got"]:
        o["out"] = False      # the automatic error response
    return o
