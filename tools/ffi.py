"""Scenarios for the C API's executor (F01): behaviours of FfiExec.tla turned into scripts, and
whole exchanges of the library's own tasks over a callback transport."""
import random


def from_hist(h, n, R, idx):
    scripts = [[] for _ in range(n)]
    each = [R.random() < 0.2 for _ in range(n)]
    steps = []
    for x in h:
        if x[0] == "run":
            ops = [list(o) for o in x[2]]
            if any(o[0] == "wake" for o in ops) and R.random() < 0.3:
                ops.append(["self"])
            out = x[3]
            if out == "buf" and not each[x[1]]:
                out = R.choice(["buf", "buf", "end", "err"])
            scripts[x[1]].append({"ops": ops, "out": out})
        elif x[0] == "wake" and R.random() < 0.2:
            steps.append(["tw", x[1], R.choice([0, 100, 5000])])
            if R.random() < 0.5:
                steps.append(["tj"])
        elif x[0] == "poll":
            steps += [["poll"]] * R.choice([1, 1, 1, 2, 3])
        else:
            steps.append([x[0], x[1]])
    # more runs than the behaviour had: still driven
    for s in scripts:
        for _ in range(R.choice([0, 0, 1, 2])):
            s.insert(R.randint(0, len(s)), {"ops": R.choice([[["keep"]], [["self"]], [["keep"], ["self"]], [["keep"], ["keep"]], [["keep"], ["drop"]], [["keep"], ["wake", R.randrange(n)]]]), "out": "p"})
    steps.append(["tj"])
    if R.random() < 0.2:
        steps.append(["free"])
    else:
        for _ in range(R.choice([1, 2])):
            steps += [["wake", R.randrange(n)], ["poll"]]
        steps += [["poll"]] * (n + 1)
        for i in range(n):
            steps += [["push", i], ["poll"], ["wake", i], ["poll"], ["poll"]]
        steps += [["poll"]] * 3
    return {"id": idx, "role": "exec", "tasks": [{"script": s, "each": e} for s, e in zip(scripts, each)], "steps": steps}


def trace(sc, ev):
    if sc["role"] == "http":
        n = sc["n"]
        ids = [0, 99] + [100 + k for k in range(n)] + [200 + k for k in range(n)]
        out = []
        each, opaque = [], True
    else:
        ids = list(range(len(sc["tasks"])))
        each = [i for i, t in enumerate(sc["tasks"]) if t["each"]]
        out, opaque = [], False
    body = dict(sc.get("body", []))
    for e in ev:
        t = e[0]
        if t == "abort":
            out.append({"e": "panic"})
        elif t in ("push", "cb", "wake", "tw", "tj", "pusherr"):
            out.append({"e": t, "i": e[1]})
        elif t == "out":
            out.append({"e": t, "i": e[1], "v": e[2]})
        elif t == "data":
            out.append({"e": t, "i": e[1], "ok": e[2] == "v%d" % e[1]})
        elif t == "ret":
            if e[1] == 99:      # the connection's own task
                out.append({"e": "push", "i": 99})
            ok = e[2] != "buf" or e[3] == ("v%d" % e[1] if not opaque else e[3])
            out.append({"e": t, "i": e[1], "k": e[2], "ok": ok, "once": e[4]})
        elif t in ("poll", "null", "free"):
            out.append({"e": t})
        elif t == "must":
            out.append({"e": t, "i": e[1], "k": e[2]})
    return {"sc": {"ids": ids, "each": each, "opaque": opaque}, "ev": out}


def http(R, idx):
    """handshake, requests and bodies as tasks of one executor; every byte and wake-up is
    delivered and polled for, then the results must have come out"""
    n = R.choice([1, 1, 2, 3])
    steps = [["poll"], ["must", 0, "conn"]]
    wcap = R.choice([-1, -1, -1, 0, 5])
    for k in range(n):
        steps += [["send", k], ["poll"]]
        if wcap >= 0 and k == 0:
            for c in R.choice([[3, -1], [1, 7, -1], [-1]]):
                steps += [["wcap", c], ["poll"]]
        body = "x" * R.choice([1, 5, 40])
        cl = R.random() < 0.5
        head = "HTTP/1.1 200 OK\r\n" + ("Content-Length: %d\r\n\r\n" % len(body) if cl else "Transfer-Encoding: chunked\r\n\r\n")
        wire = head + (body if cl else "%x\r\n%s\r\n0\r\n\r\n" % (len(body), body))
        cuts = sorted(R.sample(range(1, len(wire)), min(len(wire) - 1, R.choice([0, 1, 3]))))
        parts = [wire[a:b] for a, b in zip([0] + cuts, cuts + [len(wire)])]
        fail = k == n - 1 and R.random() < 0.25
        if fail:
            wire = head[:R.randint(0, len(head) - 3)]
            parts = [wire] if wire else []
        for p in parts:
            steps += [["in", p], ["poll"]]
        if fail:
            steps += [["eof"], ["poll"], ["must", 100 + k, "err"]]
            break
        steps += [["must", 100 + k, "resp"]]
        steps += [["body", k], ["poll"], ["must", 200 + k, "buf"]]
        for _ in range(len(body) + 2):
            steps += [["body", k], ["poll"]]
        steps += [["must", 200 + k, "end"]]
    steps += [["drop"], ["poll"], ["must", 99, "end"]]
    return {"id": idx, "role": "http", "n": n, "wcap": wcap, "steps": steps}
