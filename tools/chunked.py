"""Concretizes the token strings enumerated by Chunked.tla, and larger ones around the limits."""
import h1

XS = "gG`@/:x\x00\x80\xff-+_,\"\x0b\x0c\x7fz.\x1f\xa0"
OVS = ["10000000000000003", "10000000000000000", "fffffffffffffffff", "1000000000000000A", "ABCDEF01234567890", "00000000020000000000000001"]


def tl(R):
    n = R.choice(["X-T", "a", "x-long-trailer-name", "X-t", "1", "E!#$%&'*+-.^_`|~"])
    v = R.choice(["v", "", "a b", "x:y", "\xe9\x80", "a\tb", "z" * R.choice([1, 30, 200])])
    return n, v


TBS = ["no colon", ": v", "a b: c", "a : b", "a: b\x00c", "\xe9: x", "a: b\nc: d", "a: b\n", "\n", "(a): b", "a: \x01", " a: b", "a\x00: b", "a: b\n\n"]


def concretize(case, R, base, k=0):
    """-> (bytes, rec fields) or None where the text would mean something else"""
    out, segs, trl = "", [], []
    n = 0
    digits = ""
    line = False      # inside a trailer line
    ph = "start"
    toks = case["s"]
    bb = -1
    for j, t in enumerate(toks):
        last = j == len(toks) - 1 and not case["ok"]
        if t == "D0":
            c = "0"
        elif t == "D2":
            c = R.choice("2221359aAfF")
        elif t == "OV":
            c = R.choice(OVS)
        elif t == "SP":
            c = R.choice(" \t ")
        elif t == "SC":
            c = ";"
        elif t == "CR":
            c = "\r"
        elif t == "LF":
            c = "\n"
        elif t == "X":
            c = R.choice(XS)
        elif t == "DATA":
            v = int(digits, 16)
            segs.append([base + len(out), base + len(out) + v])
            c = h1.lat(h1.pattern(k, n, v))
            n += v
        elif t == "TL":
            a, b = tl(R)
            trl.append([a.lower(), b])
            c = a + ":" + R.choice([" ", "", "\t"]) + b + R.choice(["", "", " "])
        elif t == "TB":
            c = R.choice(TBS)
        if ph == "start":
            digits = c if t in ("D0", "D2") else ""
            ph = "size"
        elif ph == "size":
            if t in ("D0", "D2"):
                digits += c
            elif t in ("SP", "SC"):
                ph = "ext"
        if t == "LF" and not last:
            prev = toks[j - 2] if j > 1 else ""
            if prev == "DATA":
                ph = "start"
            elif ph in ("size", "ext"):
                ph = "body" if int(digits, 16) else "trailer"
        if last and t != "OV" and ph == "trailer":
            p1 = toks[j - 1]
            if p1 == "TL":
                if t not in ("LF", "X"):
                    return None
                if t == "X":
                    c = R.choice("\x00\x01\x7f")
                out += c + "\r\n\r\n"
                bb = base + len(out)
                break
            if p1 == "LF":     # at the start of a trailer line
                out += c + "\r\n\r\n"
                bb = base + len(out)
                break
        if t == "OV":
            z = len(c) - len(c.lstrip("0"))
            bb = base + len(out) + z + 17
            out += c
            break
        out += c
        if last:
            bb = base + len(out)
    return out, segs, n, trl, bb


def extra(R):
    """strings around the limits and huge sizes -> (text parts, ok): parts are ('t', text) or ('d', n)"""
    c = R.random()
    if c < 0.3:      # extension bytes, over one or many chunks
        big = R.random() < 0.5
        tot = R.choice([17000, 20000, 40000]) if big else R.choice([4000, 9000, 15000])
        m = R.choice([1, 2, 7, 40])
        parts = []
        at = None
        used = 0
        for i in range(m):
            parts += [("t", "2;" + "e" * (tot // m) + "\r\n"), ("d", 2), ("t", "\r\n")]
        parts.append(("t", "0;" + "e" * 10 + "\r\n\r\n"))
        return parts, not big, [], {}
    if c < 0.5:      # trailer bytes
        big = R.random() < 0.5
        tot = R.choice([17000, 33000]) if big else R.choice([4000, 9000, 15000])
        m = R.choice([1, 3, 20])
        tr = [["x-%d" % i, "v" * (tot // m)] for i in range(m)]
        return [("t", "1\r\n"), ("d", 1), ("t", "\r\n0\r\n" + "".join("%s: %s\r\n" % tuple(x) for x in tr) + "\r\n")], not big, tr, {}
    if c < 0.75:     # trailer count
        lim = R.choice([None, 8, 150])
        big = R.random() < 0.5
        m = (lim or 100) + (R.choice([1, 2, 10]) if big else -R.choice([0, 1, 3]))
        tr = [["x-%d" % i, "v"] for i in range(m)]
        cfg = {"max_headers": lim} if lim else {}
        return [("t", "1\r\n"), ("d", 1), ("t", "\r\n0\r\n" + "".join("%s: %s\r\n" % tuple(x) for x in tr) + "\r\n")], not big, tr, cfg
    if c < 0.85:     # a size that fits 64 bits and can never be complete
        s = R.choice(["ffffffffffffffff", "7fffffffffffffff", "8000000000000000", "100000000", "0fffffffffffffffe", "1ffffffffffffffF"[:16]])
        return [("t", s + "\r\n"), ("d", 50)], None, [], {}
    parts = []
    for i in range(R.choice([1, 5, 60])):
        n = R.choice([1, 9, 10, 15, 16, 17, 255, 256, 300, 1500])
        h = ("%x" if R.random() < 0.5 else "%X") % n
        parts += [("t", "0" * R.choice([0, 0, 1, 20]) + h + R.choice(["", " ", "\t ", ";a", " ;a=\"b\"", ";;", "; \xff"]) + "\r\n"), ("d", n), ("t", "\r\n")]
    parts.append(("t", R.choice(["0", "000", "0 ", "0;x"]) + "\r\n\r\n"))
    return parts, True, [], {}


def build_extra(R, base, k=0):
    parts, ok, trl, cfg = extra(R)
    out, segs, n = "", [], 0
    for a, b in parts:
        if a == "t":
            out += b
        else:
            segs.append([base + len(out), base + len(out) + b])
            out += h1.lat(h1.pattern(k, n, b))
            n += b
    # an over-limit body is refused somewhere: data before it may be delivered
    bb = base if ok is False else -1
    return out, segs, n, trl, bb, ok, cfg
