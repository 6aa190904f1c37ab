----------------------------- MODULE H1ClientObs -----------------------------
(***************************************************************************)
(* Observable behaviour of one HTTP/1 client connection: requests given to *)
(* its sender, request messages on the wire, bytes read, responses and     *)
(* body frames delivered, interim responses reported, transport calls, the *)
(* connection's result.  Check(s, e) is the set of clauses that event e    *)
(* violates in state s, Upd(s, e) the next state; the design model         *)
(* (H1Client.tla) and traces of the real code use the same operators.      *)
(*                                                                         *)
(* Scenario constants sc:                                                  *)
(*  reqs : by request id (given in this order): [head, close, n, inf, try, *)
(*         valid]: method HEAD; asks to close; informational callback; given with    *)
(*         try_send_request; can be encoded                                *)
(*  grps : what the peer sends, one group per final response in wire order:*)
(*     gs     : offset of the group's first byte                           *)
(*     infs   : offsets at which its interim responses end                 *)
(*     hs, he : the final head;  be : end of the message, -1 if delimited  *)
(*              by close or never reached;  bb : first malformed body byte *)
(*     segs, n: wire ranges carrying data; decoded length (-1: unknown)    *)
(*     cd     : delimited by the end of the stream                         *)
(*     len    : length known from the head;  tr : trailers follow          *)
(*     close  : last response on the connection;  up : an upgrade          *)
(*     bad    : not a response: offset by which that is certain, else -1   *)
(*  maxbuf, mode, vec;  blk : the transport may refuse output              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
If(c, x) == IF c THEN x ELSE {}
RECURSIVE SumSegs(_, _, _)
SumSegs(segs, i, off) ==
  IF i > Len(segs) THEN 0
  ELSE MaxOf(0, MinOf(segs[i][2], off) - segs[i][1]) + SumSegs(segs, i + 1, off)
Avail(g, off) == SumSegs(g.segs, 1, off)

Ids(sc) == 0 .. (Len(sc.reqs) - 1)
Req(s, i) == s.sc.reqs[i + 1]
NoGrp == [gs |-> 1000000000, infs |-> <<>>, hs |-> 1000000000, he |-> 1000000000, be |-> -1, bb |-> -1, segs |-> <<>>, n |-> 0, cd |-> FALSE,
          len |-> TRUE, tr |-> FALSE, close |-> FALSE, up |-> FALSE, bad |-> -1]
Grp(s, k) == IF k >= 0 /\ k < Len(s.sc.grps) THEN s.sc.grps[k + 1] ELSE NoGrp

Init0(sc) ==
  [ sc |-> sc,
    read |-> 0, eof |-> FALSE, rerr |-> FALSE, werr |-> FALSE,
    sent |-> [i \in Ids(sc) |-> FALSE],
    sseq |-> <<>>,                              \* ids in the order given
    sbusy |-> [i \in Ids(sc) |-> FALSE],        \* given while another was outstanding
    sat |-> [i \in Ids(sc) |-> 0],              \* bytes read when the request was given
    out |-> [i \in Ids(sc) |-> "none"],         \* outcome: none, ok, err, drop
    order |-> <<>>,                             \* ids taken up, in order
    heads |-> 0,                                \* heads begun on the wire
    rat |-> <<>>,                               \* bytes read when they were
    wend |-> 0,                                 \* requests complete on the wire
    prod |-> [i \in Ids(sc) |-> 0], wrote |-> [i \in Ids(sc) |-> 0], unsent |-> 0,
    bst |-> [i \in Ids(sc) |-> "open"],         \* request body: open, end, err
    bgone |-> [i \in Ids(sc) |-> FALSE],
    polled |-> [i \in Ids(sc) |-> FALSE],
    infs |-> [i \in Ids(sc) |-> 0],
    got |-> [i \in Ids(sc) |-> 0], rst |-> [i \in Ids(sc) |-> "none"],   \* response body: none, open, end, err, drop
    lastp |-> [i \in Ids(sc) |-> FALSE], trs |-> [i \in Ids(sc) |-> 0],
    stray |-> FALSE, txgone |-> FALSE,
    sd |-> FALSE, dirty |-> FALSE, upgraded |-> FALSE,
    res |-> "none", dropped |-> FALSE ]

Ended(s) == s.res # "none" \/ s.dropped
Faulted(s) == s.rerr \/ s.werr
Nk(s) == Len(s.order)                            \* exchanges begun
Cur(s) == IF Nk(s) = 0 THEN -1 ELSE s.order[Nk(s)]
CurG(s) == Grp(s, Nk(s) - 1)
KOf(s, i) == IF \E k \in 1 .. Nk(s) : s.order[k] = i THEN (CHOOSE k \in 1 .. Nk(s) : s.order[k] = i) - 1 ELSE -1
BodyIn(s, g) == g.be >= 0 /\ g.be <= s.read
BodyBad(s, g) == g.bb >= 0 /\ g.bb <= s.read
HeadIn(s, g) == g.bad < 0 /\ g.he <= s.read
HeadBad(s, g) == g.bad >= 0 /\ g.bad <= s.read

\* the exchange in progress is over on both sides
ExDone(s) ==
  Nk(s) = 0 \/ ( /\ s.out[Cur(s)] # "err" /\ s.wend = Nk(s) /\ HeadIn(s, CurG(s)) /\ BodyIn(s, CurG(s)) )
\* ... and leaves the connection usable
Reusable(s) ==
  Nk(s) = 0 \/ ( /\ ~Req(s, Cur(s)).close /\ ~CurG(s).close /\ ~CurG(s).up /\ ~CurG(s).cd
                 /\ s.bst[Cur(s)] # "err" /\ s.out[Cur(s)] \in {"none", "ok"} )
Idle(s) == ExDone(s) /\ Reusable(s) /\ (Nk(s) = 0 \/ s.rst[Cur(s)] \in {"none", "end", "open"})
Boundary(s) == IF Nk(s) = 0 THEN 0 ELSE CurG(s).be
\* bytes that no request asked for
Stray(s) == s.stray \/ (Idle(s) /\ s.read > Boundary(s))
\* requests given and neither answered nor begun
Queued(s) == {i \in Ids(s.sc) : s.sent[i] /\ s.out[i] = "none" /\ KOf(s, i) < 0}
\* the response body does not hold the connection up
Quiet(s) == Nk(s) = 0 \/ s.rst[Cur(s)] # "open" \/ (CurG(s).n = 0 /\ CurG(s).len)
\* anything that entitles the connection to give up
Cause(s) == Faulted(s) \/ s.eof \/ Stray(s) \/ s.txgone \/ Ended(s) \/ s.sd
            \/ (\E i \in Ids(s.sc) : s.out[i] = "drop" \/ s.bst[i] = "err" \/ ~Req(s, i).valid)
            \/ (\E k \in 1 .. Nk(s) : LET g == Grp(s, k - 1) IN BodyBad(s, g) \/ (g.bad >= 0 /\ s.read > g.hs) \/ g.close \/ g.cd \/ g.up \/ Req(s, s.order[k]).close)
            \/ (\E i \in Ids(s.sc) : s.rst[i] \in {"drop", "err"})

\* what fails a request through the connection
Failed(s) == Faulted(s) \/ s.eof \/ Stray(s) \/ (ExDone(s) /\ s.read > Boundary(s)) \/ (\E k \in 1 .. Nk(s) : LET g == Grp(s, k - 1) IN g.bad >= 0 /\ s.read > g.hs)

(***************************************************************************)
CheckRd(s, e) ==
     If(e.n > 0 /\ Nk(s) > 0 /\ s.out[Cur(s)] = "ok" /\ s.rst[Cur(s)] = "open" /\ ~BodyIn(s, CurG(s))
        /\ s.read - CurG(s).he - s.got[Cur(s)] > 4 * s.sc.maxbuf + 16384, {"S13.unbounded"})
  \cup If(Ended(s), {"S15.readafterend"})

\* the head of request e.i begins on the wire
CheckOh(s, e) == If(e.i < 0 \/ Nk(s) < s.heads + 1 \/ s.order[MinOf(s.heads + 1, Nk(s))] # e.i, {"C05.phantom", "C01.phantom", "C06.order"})
                 \cup If(s.sd, {"S15.aftershutdown"})

\* the connection takes up request e.i
CheckTk(s, e) ==
  IF e.i \notin Ids(s.sc) THEN {"C05.phantom", "C01.phantom"}
  ELSE If(~s.sent[e.i], {"C01.phantom"})
  \cup If(KOf(s, e.i) >= 0, {"C01.twice", "C05.twice"})
  \cup If(s.out[e.i] = "drop" /\ ~s.sc.blk, {"C06.sent"})
  \cup If(s.out[e.i] = "err" /\ ~s.sc.blk, {"C01.sentafter"})
  \cup If(\E a, b \in 1 .. Len(s.sseq) : a < b /\ s.sseq[a] = e.i /\ KOf(s, s.sseq[b]) >= 0, {"C01.order"})
  \cup If(s.wend < Nk(s) /\ ~s.sc.blk, {"C05.interleaved", "C06.interleaved"})
  \cup If(Nk(s) > 0 /\ ~(HeadIn(s, CurG(s)) /\ BodyIn(s, CurG(s))), {"C03.early", "C06.reused"})
  \cup If(Nk(s) > 0 /\ ~Reusable(s), {"C03.reused", "C06.reused"})
  \cup If(Nk(s) > 0 /\ s.rst[Cur(s)] = "err", {"C03.reused", "S03.reused"})
  \cup If(Stray(s) /\ ~s.sc.blk, {"C03.stray"})
  \cup If(s.sd, {"S15.aftershutdown"})

CheckRes(s, e) ==
  IF ~s.sent[e.i] THEN {"C01.phantom"}
  ELSE If(s.out[e.i] # "none", {"C01.twice"})
  \cup (IF e.r = "ok"
        THEN LET k == KOf(s, e.i)  g == Grp(s, k) IN
             IF k < 0 THEN {"C01.unsent", "C03.unsent"}
             ELSE If(k # Nk(s) - 1, {"C03.order", "C06.order"})
               \cup If(g.bad >= 0 \/ g.he > s.read, {"S02.early", "C02.early", "S04.early"})
               \cup If(~e.ok, {"C02.wrong", "C03.wrong", "C06.wrong", "C04.final"})
               \cup If(g.gs < (IF s.sc.blk THEN s.sat[e.i] ELSE s.rat[k + 1]), {"C03.stray"})
               \cup If(Req(s, e.i).inf /\ s.infs[e.i] # Len(g.infs), {"C04.missed"})
               \cup If(g.len /\ (e.lo # g.n \/ e.hi # g.n), {"C07.exact"})
               \cup If(g.len /\ g.n = 0 /\ ~e.eos, {"C07.empty"})
               \cup If((g.n > 0 \/ g.tr) /\ e.eos, {"C07.eos"})
               \cup If(e.hi >= 0 /\ g.n >= 0 /\ e.hi < g.n, {"C07.upper"}) \cup If(g.n >= 0 /\ g.be >= 0 /\ e.lo > g.n, {"C07.lower"})
        ELSE If(e.back /\ KOf(s, e.i) >= 0, {"C01.back"})
        \cup If(~e.back /\ Req(s, e.i).try /\ Req(s, e.i).valid /\ KOf(s, e.i) < 0 /\ ~s.polled[e.i] /\ ~s.sc.blk /\ ~Faulted(s), {"C01.lost"})
        \cup If(~Cause(s) /\ ~s.sbusy[e.i] /\ ~(s.sc.blk /\ KOf(s, e.i) < 0), {"C01.spurious", "C02.refused", "C04.refused", "S02.spurious"})
        \* the response is there
        \cup If(KOf(s, e.i) >= 0 /\ KOf(s, e.i) = Nk(s) - 1 /\ HeadIn(s, CurG(s)) /\ s.bst[e.i] # "err" /\ Req(s, e.i).valid /\ ~Faulted(s) /\ ~s.dropped,
               {"C01.spurious", "C02.refused", "S02.spurious"}))

CheckInf(s, e) ==
  LET k == KOf(s, e.i)  g == Grp(s, k) IN
     If(k < 0, {"C04.unsent"})
  \cup If(k >= 0 /\ k # Nk(s) - 1, {"C04.other"})
  \cup If(s.out[e.i] # "none" /\ s.out[e.i] # "drop", {"C04.late"})
  \cup If(k >= 0 /\ s.infs[e.i] + 1 > Len(g.infs), {"C04.invented"})
  \cup If(k >= 0 /\ s.infs[e.i] + 1 <= Len(g.infs) /\ g.infs[s.infs[e.i] + 1] > s.read, {"C04.early", "S02.early"})
  \cup If(~e.ok, {"C04.wrong"})

CheckRb(s, e) ==
  LET k == KOf(s, e.i)  g == Grp(s, k) IN
  IF k < 0 THEN {"C06.body"}
  ELSE CASE e.t = "d" ->
          If(s.got[e.i] + e.n > Avail(g, s.read), {"S04.invented", "C02.invented", "C06.data"})
     \cup If(~e.ok, {"C02.data", "C06.data", "S02.data", "S03.data", "S13.data"})
     \cup If(s.rst[e.i] \in {"end", "err"}, {"C07.afterend", "S04.afterend"})
     \cup If(e.was, {"C07.eos"})
     \cup (IF g.be >= 0 /\ g.bb < 0
           THEN   If(e.lo > g.n - (s.got[e.i] + e.n), {"C07.lower"})
             \cup If(e.hi >= 0 /\ e.hi < g.n - (s.got[e.i] + e.n), {"C07.upper"})
             \cup If(g.len /\ (e.lo # g.n - (s.got[e.i] + e.n) \/ e.hi # e.lo), {"C07.exact"})
             \cup If(e.eos /\ (s.got[e.i] + e.n < g.n \/ g.tr), {"C07.eos"})
           ELSE If(e.eos /\ ~g.cd, {"S04.eos", "C07.eos"}) \cup If(g.cd /\ e.eos /\ ~s.eof, {"C07.eos"}))
    [] e.t = "t" ->
          If(~BodyIn(s, g) \/ s.got[e.i] # g.n \/ ~g.tr \/ ~e.ok \/ s.trs[e.i] > 0, {"S10.received", "S03.trailers"})
     \cup If(s.rst[e.i] \in {"end", "err"}, {"C07.afterend"}) \cup If(e.was, {"C07.eos"})
    [] e.t = "end" ->
          If(s.rst[e.i] # "err" /\ ~g.cd /\ (~BodyIn(s, g) \/ s.got[e.i] # g.n), {"S04.complete", "C02.complete", "S03.complete", "S02.complete"})
     \cup If(s.rst[e.i] # "err" /\ g.cd /\ (~s.eof \/ s.got[e.i] # Avail(g, s.read)), {"S04.complete", "C02.complete", "S02.complete"})
     \cup If(s.rst[e.i] # "err" /\ g.tr /\ s.trs[e.i] = 0, {"S10.received", "S03.trailers"})
    [] e.t = "err" ->
          If(~(s.eof \/ Faulted(s) \/ Ended(s) \/ BodyBad(s, g) \/ s.bst[e.i] = "err" \/ (g.cd /\ s.rst[e.i] = "open" /\ Faulted(s))), {"S02.spurious", "C02.spurious", "S03.refused"})
     \cup If(s.rst[e.i] = "end", {"C07.afterend"})
     \* a body whose delimited end was seen is not failed by what comes after it
    [] OTHER -> {}

CheckBp(s, e) ==
  IF e.t # "d" THEN {}
  ELSE If(s.unsent > s.sc.maxbuf, {"S12.unbounded"}) \cup If(s.sc.vec /\ e.o > 18, {"S12.count"})
       \cup If(s.sd, {"S15.aftershutdown"})
       \cup If(s.out[e.i] = "drop" /\ KOf(s, e.i) < 0 /\ ~s.sc.blk, {"C06.polled"})

WCur(s) == IF s.heads = 0 \/ s.heads > Nk(s) THEN -1 ELSE s.order[s.heads]
CheckOb(s, e) ==
  LET i == WCur(s) IN
     If(~e.ok, {"C05.data", "S12.data", "S15.data"})
  \cup If(i >= 0 /\ s.wrote[i] + e.n > s.prod[i], {"C05.invented", "S12.data"})
CheckOe(s, e) ==
  LET i == WCur(s) IN
  IF i < 0 THEN {"C05.phantom"}
  ELSE If(s.bst[i] = "err", {"C05.terminated", "C06.terminated"})
    \cup If(s.wrote[i] # s.prod[i], {"S12.lost", "C05.lost"})

CheckSd(s, e) ==
     If(s.sd, {"S15.twice"}) \cup If(s.dirty, {"S15.unflushed"}) \cup If(s.upgraded, {"S11.shutdown"})
  \cup If(Nk(s) > 0 /\ s.bst[Cur(s)] # "err" /\ ~Faulted(s) /\ s.unsent > 0 /\ s.out[Cur(s)] = "none" /\ ~s.eof /\ ~HeadIn(s, CurG(s)) /\ ~HeadBad(s, CurG(s)), {"S15.cut"})

CheckConn(s, e) ==
     If(Ended(s), {"S14.twice"})
  \cup If(e.r = "err" /\ ~Cause(s), {"S14.failed", "C01.failed", "S02.failed", "C03.failed"})
  \cup If(e.r = "ok" /\ Stray(s) /\ ~s.txgone /\ ~s.sd /\ Queued(s) = {} /\ (\A i \in Ids(s.sc) : s.out[i] \notin {"err", "drop"}), {"C03.silent"})
  \* a failure handed to the request it concerns ends the connection without one of its own
  \cup If(e.r = "ok" /\ s.sc.mode # "nosd" /\ ~s.sd /\ ~(s.upgraded \/ (CurG(s).up /\ HeadIn(s, CurG(s)))) /\ ~(\E i \in Ids(s.sc) : s.sent[i] /\ s.out[i] \in {"none", "drop"} /\ (Failed(s) \/ s.bst[i] = "err")), {"S15.noshutdown"})
  \cup If(e.r = "ok" /\ ~Cause(s), {"S14.closed", "C01.closed", "C06.closed"})

CheckQ(s, e) ==
  LET i == Cur(s)  g == CurG(s)
      live == ~Ended(s) /\ e.conn > 0 /\ ~s.upgraded
      busy == live /\ i >= 0 /\ s.out[i] = "none"
      reading == live /\ i >= 0 /\ s.out[i] = "ok" /\ s.rst[i] = "open"
      wait == i >= 0 /\ s.rst[i] = "open" /\ s.lastp[i]
      idle == live /\ Idle(s)
  IN
  \* every request has its outcome once the connection is over
     If(~live /\ ~s.upgraded /\ (\E j \in Ids(s.sc) : s.sent[j] /\ s.out[j] = "none"), {"C01.hang", "S14.hang", "C06.hang"})
  \* a response that is there is delivered; a broken one is reported
  \cup If(busy /\ s.sent[i] /\ HeadIn(s, g), {"C01.undelivered", "S14.undelivered", "S02.undelivered", "C04.undelivered"})
  \cup If(busy /\ HeadBad(s, g), {"C01.unreported", "C02.unreported"})
  \cup If(busy /\ e.left > 0, {"S14.headunread", "C01.headunread"})
  \cup If(busy /\ (s.eof \/ s.rerr \/ (e.term /\ e.left = 0)), {"C01.hang", "S04.hang", "S14.hang"})
  \* interim responses are reported when they are there
  \cup If(busy /\ Req(s, i).inf /\ (\E j \in 1 .. Len(g.infs) : g.infs[j] <= s.read /\ j > s.infs[i]), {"C04.missed", "S14.interim"})
  \* response bodies
  \cup If(wait /\ s.got[i] < Avail(g, s.read), {"S14.bodydata", "S13.resume", "C06.hang"})
  \cup If(wait /\ BodyIn(s, g) /\ s.got[i] = g.n, {"S14.bodyend", "S02.bodyend", "C02.bodyend"})
  \cup If(live /\ wait /\ ~BodyIn(s, g) /\ ~BodyBad(s, g) /\ e.left > 0, {"S14.unread", "S13.resume"})
  \cup If(wait /\ (s.eof \/ s.rerr \/ BodyBad(s, g) \/ (e.term /\ e.left = 0) \/ Ended(s)), {"S04.hang", "S14.reader", "C01.reader"})
  \* requests go out
  \cup If(idle /\ e.ok /\ ~Stray(s) /\ ~s.eof /\ ~e.term /\ ~Faulted(s) /\ ~s.txgone /\ Quiet(s) /\ Queued(s) # {}, {"C01.stuck", "S14.request", "C06.hang"})
  \cup If(live /\ e.ok /\ ~Faulted(s) /\ i >= 0 /\ (\E j \in 1 .. Len(e.oq) : e.oq[j] = i) /\ ~s.bgone[i], {"S14.body", "S12.resume"})
  \cup If(live /\ e.ok /\ ~Faulted(s) /\ s.unsent > 0, {"S14.buffered", "S15.buffered"})
  \cup If(live /\ e.ok /\ ~Faulted(s) /\ i >= 0 /\ s.bst[i] = "end" /\ s.wend < Nk(s), {"S14.terminator", "C05.unfinished"})
  \cup If(live /\ e.ok /\ s.dirty, {"S15.flush"})
  \* idle: the end of the stream, stray bytes and the loss of the sender are noticed
  \cup If(idle /\ e.ok /\ (s.eof \/ s.rerr \/ (e.term /\ e.left = 0)) /\ Quiet(s), {"S14.eofopen", "C01.eofopen"})
  \cup If(idle /\ e.ok /\ (Stray(s) \/ e.left > 0) /\ Quiet(s), {"C03.kept", "S14.stray"})
  \cup If(idle /\ e.ok /\ s.txgone /\ Quiet(s), {"S14.txgone", "C06.linger"})
  \cup If(live /\ e.ok /\ ExDone(s) /\ ~Reusable(s) /\ s.rst[i] \in {"end", "err", "drop"}, {"C03.linger", "S14.linger"})
  \cup If(live /\ e.ok /\ s.sd, {"S14.aftershutdown"})
  \* the sender learns about it
  \cup If(idle /\ e.ok /\ ~Stray(s) /\ ~s.eof /\ ~e.term /\ ~s.txgone /\ ~e.ready /\ Quiet(s), {"S14.notready", "C01.notready"})
  \cup If(Ended(s) /\ ~s.txgone /\ ~e.closed, {"C01.notclosed"})

Check(s, e) ==
  CASE e.e = "rd" -> CheckRd(s, e)
    [] e.e = "oh" -> CheckOh(s, e)
    [] e.e = "tk" -> CheckTk(s, e)
    [] e.e = "res" -> CheckRes(s, e)
    [] e.e = "inf" -> CheckInf(s, e)
    [] e.e = "rb" -> CheckRb(s, e)
    [] e.e = "bp" -> CheckBp(s, e)
    [] e.e = "ob" -> CheckOb(s, e)
    [] e.e = "oe" -> CheckOe(s, e)
    [] e.e = "wr" -> If(s.sd, {"S15.aftershutdown"})
    [] e.e = "sd" -> CheckSd(s, e)
    [] e.e = "conn" -> CheckConn(s, e)
    [] e.e = "q" -> CheckQ(s, e)
    [] e.e = "bad" -> {"C05.malformed", "C06.malformed", "S12.malformed"}
    [] e.e = "spin" -> {"S14.spin"}
    [] e.e = "panic" -> {"ANY.panic"}
    [] OTHER -> {}

Upd(s, e) ==
  CASE e.e = "rd" -> IF e.n = 0 THEN [s EXCEPT !.eof = TRUE]
                     ELSE [s EXCEPT !.read = @ + e.n, !.stray = @ \/ (~s.sc.blk /\ Idle(s))]
    [] e.e = "rderr" -> [s EXCEPT !.rerr = TRUE]
    [] e.e = "werr" -> [s EXCEPT !.werr = TRUE]
    [] e.e = "send" -> [s EXCEPT !.sent[e.i] = TRUE, !.sseq = Append(@, e.i), !.sat[e.i] = s.read,
                                 !.sbusy[e.i] = Queued(s) # {} \/ ~(Idle(s) /\ Quiet(s))]
    [] e.e = "oh" -> [s EXCEPT !.heads = @ + 1]
    [] e.e = "tk" -> IF e.i \in Ids(s.sc) /\ KOf(s, e.i) < 0
                     THEN [s EXCEPT !.order = Append(@, e.i), !.rat = Append(@, s.read)] ELSE s
    [] e.e = "ob" -> IF WCur(s) >= 0 THEN [s EXCEPT !.wrote[WCur(s)] = @ + e.n, !.unsent = @ - e.n] ELSE s
    [] e.e = "oe" -> [s EXCEPT !.wend = @ + 1]
    [] e.e = "res" -> [s EXCEPT !.out[e.i] = e.r, !.rst[e.i] = IF e.r = "ok" THEN "open" ELSE @,
                                !.upgraded = @ \/ (e.r = "ok" /\ Grp(s, KOf(s, e.i)).up)]
    [] e.e = "resdrop" -> [s EXCEPT !.out[e.i] = IF @ = "none" THEN "drop" ELSE @]
    [] e.e = "inf" -> [s EXCEPT !.infs[e.i] = @ + 1]
    [] e.e = "rb" -> CASE e.t = "d" -> [s EXCEPT !.got[e.i] = @ + e.n, !.lastp[e.i] = FALSE]
                       [] e.t = "p" -> [s EXCEPT !.lastp[e.i] = TRUE]
                       [] e.t = "t" -> [s EXCEPT !.trs[e.i] = @ + 1, !.lastp[e.i] = FALSE]
                       [] e.t = "end" -> [s EXCEPT !.rst[e.i] = IF @ = "err" THEN @ ELSE "end", !.lastp[e.i] = FALSE]
                       [] e.t = "err" -> [s EXCEPT !.rst[e.i] = "err", !.lastp[e.i] = FALSE]
                       [] e.t = "drop" -> [s EXCEPT !.rst[e.i] = IF @ = "open" THEN "drop" ELSE @, !.lastp[e.i] = FALSE]
                       [] OTHER -> s
    [] e.e = "bp" -> CASE e.t = "d" -> [s EXCEPT !.prod[e.i] = @ + e.n, !.unsent = @ + e.n, !.polled[e.i] = TRUE]
                       [] e.t = "end" -> [s EXCEPT !.bst[e.i] = "end", !.polled[e.i] = TRUE]
                       [] e.t = "e" -> [s EXCEPT !.bst[e.i] = "err", !.polled[e.i] = TRUE]
                       [] OTHER -> [s EXCEPT !.polled[e.i] = TRUE]
    [] e.e = "bd" -> [s EXCEPT !.bgone[e.i] = TRUE, !.bst[e.i] = IF @ = "open" /\ e.done THEN "end" ELSE @]
    [] e.e = "wr" -> [s EXCEPT !.dirty = TRUE]
    [] e.e = "fl" -> [s EXCEPT !.dirty = FALSE]
    [] e.e = "sd" -> [s EXCEPT !.sd = TRUE]
    [] e.e = "txdrop" -> [s EXCEPT !.txgone = TRUE]
    [] e.e = "conn" -> [s EXCEPT !.res = e.r]
    [] e.e = "conndrop" -> [s EXCEPT !.dropped = TRUE]
    [] OTHER -> s
==============================================================================
