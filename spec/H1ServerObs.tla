----------------------------- MODULE H1ServerObs -----------------------------
(***************************************************************************)
(* Observable behaviour of one HTTP/1 server connection.                   *)
(*                                                                         *)
(* The state `s` is what an observer at the connection's boundary knows:   *)
(* bytes read from the transport, requests handed to the service, body     *)
(* frames seen by the application, response messages on the wire,          *)
(* transport calls, the connection's result.  `Check(s, e)` is the set of  *)
(* clauses that event `e` violates in `s`; `Upd(s, e)` is the next state.  *)
(* Both the design model (H1Server.tla) and traces recorded from the real  *)
(* code (H1ServerTrace.tla) are run through the same two operators, so a   *)
(* clause means the same thing for the design and for the implementation.  *)
(* A clause name starts with the id of the property it belongs to.         *)
(*                                                                         *)
(* Scenario constants `sc` (record):                                       *)
(*   reqs : sequence of request records, in wire order                     *)
(*     hs,he : offsets of the head (bytes hs+1..he)                        *)
(*     be    : offset of the end of the message, -1 if never reached       *)
(*     bb    : offset at which the body's coding is first malformed, or -1 *)
(*     segs  : wire ranges <<a,b>> (bytes a+1..b) that carry body data     *)
(*     n     : decoded body length                                         *)
(*     v10, cc, ck, tecl, exp : version 1.0, close / keep-alive token,     *)
(*             both framings present, 100-continue wanted                  *)
(*     bad   : sequence of acceptable error statuses, <<>> if valid        *)
(*     len   : the body length is known from the head                      *)
(*     tr    : a trailer section with fields follows                       *)
(*   ka, hc : keep-alive and half-close configuration                      *)
(*   maxbuf : maximum read/write buffer size                               *)
(*   hrt    : header read timeout in ms, -1 if off                         *)
(*   mode   : plain, upg, nosd (poll_without_shutdown)                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
If(c, x) == IF c THEN x ELSE {}

RECURSIVE SumSegs(_, _, _)
SumSegs(segs, i, off) ==
  IF i > Len(segs) THEN 0
  ELSE MaxOf(0, MinOf(segs[i][2], off) - segs[i][1]) + SumSegs(segs, i + 1, off)

\* decoded body bytes of request r that are contained in the first `off` wire bytes
Avail(r, off) == SumSegs(r.segs, 1, off)

Ids(sc) == 0 .. (Len(sc.reqs) - 1)
Req(s, k) == s.sc.reqs[k + 1]
Known(s, k) == k >= 0 /\ k < Len(s.sc.reqs)

Init0(sc) ==
  [ sc |-> sc,
    read |-> 0, eof |-> FALSE, rerr |-> FALSE, werr |-> FALSE,
    called |-> 0,                                  \* requests handed to the service
    svc |-> [k \in Ids(sc) |-> "no"],              \* no, ok, err, drop
    rka |-> [k \in Ids(sc) |-> FALSE],             \* ... claims keep-alive
    rclose |-> [k \in Ids(sc) |-> FALSE],          \* the service's response asks to close
    gsvc |-> [k \in Ids(sc) |-> FALSE],            \* graceful asked before the response was given
    rst0 |-> [k \in Ids(sc) |-> 0],                \* status the service gave
    nobody |-> [k \in Ids(sc) |-> FALSE],          \* the response has no body on the wire
    asked |-> [k \in Ids(sc) |-> FALSE],
    got |-> [k \in Ids(sc) |-> 0],                 \* body bytes delivered to the application
    rst |-> [k \in Ids(sc) |-> "open"],            \* open, end, err, drop
    lastp |-> [k \in Ids(sc) |-> FALSE],           \* the reader is blocked on the body
    trs |-> [k \in Ids(sc) |-> 0],                 \* trailer frames delivered
    prod |-> [k \in Ids(sc) |-> 0],                \* response body bytes produced ...
    wrote |-> [k \in Ids(sc) |-> 0],               \* ... and on the wire
    unsent |-> 0,                                  \* produced and not yet on the wire, all responses
    bst |-> [k \in Ids(sc) |-> "open"],            \* response body: open, end, err
    bgone |-> [k \in Ids(sc) |-> FALSE],           \* response body dropped by the connection
    c100 |-> 0,                                    \* interim responses for the current request
    heads |-> 0, ends |-> 0,                       \* final response heads / ends on the wire
    selfd |-> TRUE, announced |-> FALSE,           \* last head: self-delimiting, announces close
    closeend |-> FALSE,                            \* the response in progress is delimited by close
    upgraded |-> FALSE,
    errhead |-> FALSE,                             \* an automatic error response was sent
    grace |-> FALSE, gidle |-> FALSE, gk |-> -1,
    sd |-> FALSE, dirty |-> FALSE,                 \* shutdown seen; bytes written since last flush
    res |-> "none", dropped |-> FALSE,
    now |-> 0, wait0 |-> 0, waithi |-> -1 ]        \* clock; earliest / certain start of the head wait

ReqClose(r) == r.cc \/ r.tecl \/ (r.v10 /\ ~r.ck)

\* response k is finished on the wire
RespDone(s, k) == s.ends > k
\* every body byte of k arrived in what was read
BodyIn(s, k) == Req(s, k).be >= 0 /\ Req(s, k).be <= s.read
\* the application has received all of the request
AppDone(s, k) == s.rst[k] = "end" \/ (Req(s, k).n = 0 /\ Req(s, k).len /\ BodyIn(s, k))
\* nothing in exchange k asks for the connection to be closed afterwards
Reusable(s, k) ==
  LET r == Req(s, k) IN
  /\ s.sc.ka /\ ~ReqClose(r) /\ ~s.rclose[k]
  /\ s.svc[k] = "ok" /\ s.bst[k] # "err"
  /\ s.selfd /\ ~s.announced
  /\ ~s.grace
\* the close was certain before the response was given
CloseCertain(s, k) ==
  ~s.sc.ka \/ ReqClose(Req(s, k)) \/ s.rclose[k] \/ s.gsvc[k]

Cur(s) == s.called - 1
\* no exchange is in progress
Idle(s) == s.called = 0 \/ (Known(s, Cur(s)) /\ RespDone(s, Cur(s)) /\ BodyIn(s, Cur(s)))
\* wire offset at which the next request starts
Boundary(s) == IF s.called = 0 THEN 0 ELSE Req(s, Cur(s)).be

Ended(s) == s.res # "none" \/ s.dropped
Faulted(s) == s.rerr \/ s.werr

\* the connection is at rest between exchanges, waiting for a request head
AwaitsHead(s) ==
  /\ ~Ended(s) /\ ~s.sd /\ ~s.errhead /\ ~s.upgraded
  /\ \/ s.called = 0
     \/ /\ Known(s, Cur(s)) /\ RespDone(s, Cur(s)) /\ BodyIn(s, Cur(s))
        /\ AppDone(s, Cur(s)) /\ Reusable(s, Cur(s))
  /\ (s.grace => s.gk = s.called)
NextReq(s) == IF Known(s, s.called) THEN Req(s, s.called) ELSE [he |-> -1, bad |-> <<>>, atmost |-> FALSE]
HeadIn(s) == NextReq(s).he >= 0 /\ NextReq(s).he <= s.read

(***************************************************************************)
(* Clauses                                                                 *)
(***************************************************************************)
CheckRd(s, e) ==
     If(e.n > 0 /\ s.called > 0 /\ Known(s, Cur(s)) /\ s.rst[Cur(s)] = "open" /\ ~BodyIn(s, Cur(s))
        /\ s.read - Req(s, Cur(s)).he - s.got[Cur(s)] > 4 * s.sc.maxbuf + 16384, {"S13.unbounded"})
  \cup If(e.n > 0 /\ Idle(s) /\ s.read - Boundary(s) > 4 * s.sc.maxbuf, {"S13.head"})
  \cup If(Ended(s) \/ s.sd, {"S07.readafterend"})

CheckCall(s, e) ==
  IF ~Known(s, e.k) THEN {"S01.phantom", "S02.phantom", "S07.phantom"}
  ELSE LET r == Req(s, e.k) IN
     If(e.k # s.called \/ e.p # e.k, {"S06.order", "S01.order", "S02.order", "S08.bodyasrequest"})
  \cup If(r.he > s.read, {"S02.early", "S01.early"})
  \cup If(r.bad # <<>>, {"S01.accepted", "S05.accepted"})
  \cup If(s.errhead, {"S05.after"})
  \cup If(Ended(s) \/ s.sd, {"S07.afterend"})
  \cup (IF e.k > 0 /\ Known(s, e.k - 1) THEN
             If(s.svc[e.k - 1] # "ok" \/ ~s.bgone[e.k - 1], {"S06.overlap"})
          \cup If(Req(s, e.k - 1).be < 0 \/ Req(s, e.k - 1).be > s.read, {"S01.inbody", "S07.inbody"})
          \cup If(~s.sc.ka \/ ReqClose(Req(s, e.k - 1)) \/ s.rclose[e.k - 1] \/ s.announced \/ ~s.selfd, {"S07.reused"})
          \cup If(s.svc[e.k - 1] = "err" \/ s.bst[e.k - 1] = "err", {"S07.reused", "S09.aborted"})
          \cup If(s.rst[e.k - 1] = "err", {"S07.reused", "S03.reused"})
        ELSE {})
  \cup If(s.grace /\ e.k # s.gk, {"S17.newrequest"})
  \cup If(r.len /\ r.bad = <<>> /\ (e.lo # r.n \/ e.hi # r.n), {"C07.exact"})
  \cup If(r.n = 0 /\ r.len /\ r.bad = <<>> /\ ~e.eos, {"C07.empty"})
  \cup If((r.n > 0 \/ r.tr) /\ r.bad = <<>> /\ e.eos, {"C07.eos"})

CheckRb(s, e) ==
  IF ~Known(s, e.k) THEN {"S01.phantom"}
  ELSE LET r == Req(s, e.k) IN
  CASE e.t = "d" ->
          If(s.got[e.k] + e.n > Avail(r, s.read), {"S04.invented", "S03.data", "S01.bodydata"})
     \cup If(~e.ok, {"S01.bodydata", "S03.data", "S02.data", "S13.data"})
     \cup If(s.rst[e.k] # "open", {"C07.afterend", "S04.afterend"})
     \cup If(e.was, {"C07.eos"})
     \cup (IF r.be >= 0
           THEN   If(e.lo > r.n - (s.got[e.k] + e.n), {"C07.lower"})
             \cup If(e.hi >= 0 /\ e.hi < r.n - (s.got[e.k] + e.n), {"C07.upper"})
             \cup If(r.len /\ (e.lo # r.n - (s.got[e.k] + e.n) \/ e.hi # e.lo), {"C07.exact"})
             \cup If(e.eos /\ (s.got[e.k] + e.n < r.n \/ r.tr), {"C07.eos"})
           ELSE If(e.eos, {"S04.eos", "C07.eos"}))
    [] e.t = "t" ->
          If(r.be < 0 \/ r.be > s.read \/ s.got[e.k] # r.n, {"S10.received", "S03.trailers", "S04.trailers"})
     \cup If(~r.tr \/ ~e.ok \/ s.trs[e.k] > 0, {"S10.received", "S03.trailers"})
     \cup If(s.rst[e.k] # "open", {"C07.afterend", "S10.received"})
     \cup If(e.was, {"C07.eos"})
    [] e.t = "end" ->
          If(s.rst[e.k] # "err" /\ (r.be < 0 \/ r.be > s.read \/ s.got[e.k] # r.n), {"S04.complete", "S03.complete", "S01.bodydata", "S02.complete", "S13.data"})
     \cup If(s.rst[e.k] # "err" /\ r.tr /\ s.trs[e.k] = 0, {"S10.received", "S03.trailers"})
    [] e.t = "err" ->
          \* an error needs a reason: the stream ended, failed or is malformed, or the connection is gone
          If(~(s.eof \/ s.rerr \/ s.werr \/ s.res # "none" \/ s.dropped
               \/ (r.bb >= 0 /\ r.bb <= s.read)
               \/ s.svc[e.k] \in {"err", "drop"} \/ s.bst[e.k] = "err"),
             {"S02.spurious", "S03.refused", "S13.refused"})
     \cup If(s.rst[e.k] = "end", {"C07.afterend"})
    [] OTHER -> {}

CheckO100(s, e) ==
  \* with aggregated output the service may be ahead of the wire: the interim
  \* response belongs to the exchange whose final head is the next on the wire
  LET k == s.heads IN
  IF k >= s.called \/ ~Known(s, k) THEN {"S08.unasked", "S08.late"}
  ELSE
     If(~Req(s, k).exp, {"S08.unasked"})
  \cup If(e.st # 100, {"S08.status"})
  \cup If(~s.asked[k], {"S08.ondemand"})
  \cup If(s.c100 > 0, {"S08.twice"})
  \cup If(s.ends < k, {"S08.interleaved"})
  \cup If(s.sd, {"S15.aftershutdown"})

CheckOh(s, e) ==
  LET k == s.heads IN
  If(s.sd, {"S15.aftershutdown"}) \cup
  If(s.errhead, {"S05.twice"}) \cup
  IF k < s.called /\ Known(s, k)
  THEN   If(s.svc[k] # "ok", {"S06.unanswered"})
    \cup If(s.ends < k, {"S06.interleaved"})
    \cup If(s.svc[k] = "ok" /\ e.st # s.rst0[k], {"S06.wrongresponse"})
    \* (to a 1.0 client, a keep-alive token of the service's own is passed on)
    \cup If(CloseCertain(s, k) /\ ~e.close /\ ~(Req(s, k).v10 /\ s.rka[k]), {"S07.announce"} \cup If(s.gsvc[k], {"S17.announce"}))
    \cup If(~CloseCertain(s, k) /\ e.close /\ e.selfd /\ AppDone(s, k) /\ ~s.grace /\ ~s.eof,
            {"S07.needless"})
  ELSE \* no request stands behind it: only an automatic error response
         If(~Known(s, k) \/ (Known(s, k) /\ Req(s, k).bad = <<>>), {"S06.phantom", "S05.phantom"})
    \cup (IF Known(s, k) /\ Req(s, k).bad # <<>>
          THEN If(\A i \in 1..Len(Req(s, k).bad) : Req(s, k).bad[i] # e.st, {"S05.status"})
          ELSE {})
    \cup If(s.ends < k, {"S05.corrupt", "S06.interleaved"})
    \cup If(~e.close, {"S05.announce"})

CheckOb(s, e) ==
     If(~e.ok, {"S09.data", "S12.data", "S06.data", "S15.data"})
  \cup If(Known(s, s.ends) /\ ~s.errhead /\ s.wrote[s.ends] + e.n > s.prod[s.ends], {"S09.invented", "S12.data"})
  \cup If(s.sd, {"S15.aftershutdown"})

CheckOe(s, e) ==
  LET k == s.ends IN
  IF Known(s, k) /\ k < s.called /\ ~s.nobody[k]
  THEN If(s.bst[k] = "err", {"S09.terminated"})
       \cup If(s.wrote[k] # s.prod[k] /\ ~s.errhead, {"S12.lost", "S09.lost"})
  ELSE {}

\* more was taken from the response body than fits the buffers
CheckBp(s, e) ==
  IF e.t = "d" THEN
       If(s.unsent > s.sc.maxbuf, {"S12.unbounded"})
    \cup If(s.sc.vec /\ e.o > 18, {"S12.count"})
    \cup If(s.sd, {"S15.aftershutdown"})
  ELSE {}

CheckSd(s, e) ==
     If(s.sd, {"S15.twice"})
  \cup If(s.dirty, {"S15.unflushed"})
  \cup If(s.upgraded, {"S11.shutdown"})
  \cup (IF s.called > 0 /\ Known(s, Cur(s)) /\ s.svc[Cur(s)] = "ok" /\ s.bst[Cur(s)] # "err" /\ ~Faulted(s)
        THEN If(s.ends < s.called /\ ~(s.closeend /\ s.bst[Cur(s)] = "end" /\ s.unsent = 0), {"S15.cut"} \cup If(s.grace, {"S17.cut"}))
        ELSE {})

CheckConn(s, e) ==
  LET k == Cur(s)
      open == s.called > 0 /\ Known(s, k)
      mustErr == s.errhead \/ (open /\ (s.svc[k] = "err" \/ s.bst[k] = "err"))
      mayErr  == \/ mustErr \/ Faulted(s)
                 \/ s.eof   \* the peer left: mid-message this is an error
                 \/ (open /\ Req(s, k).bb >= 0 /\ Req(s, k).bb <= s.read)
                 \/ (HeadIn(s) /\ NextReq(s).bad # <<>>)
      timeout == e.k = "timeout"
      \* (what of a body is complete may still be waiting to be read by the application;
      \* aggregated output may have been produced without being on the wire)
      waiting == Idle(s) \/ (open /\ s.sc.pf /\ BodyIn(s, k) /\ s.svc[k] = "ok" /\ s.bgone[k])
  IN
     If(Ended(s), {"S14.twice"})
  \cup If(mustErr /\ e.r = "ok",
          IF s.errhead THEN {"S05.silent"} ELSE {"S09.silent"})
  \cup If(e.r = "ok" /\ AwaitsHead(s) /\ HeadIn(s) /\ NextReq(s).bad # <<>> /\ ~s.grace, {"S05.silent"})
  \cup If(~mayErr /\ e.r = "err" /\ ~timeout, {"S14.failed", "S02.failed"} \cup If(s.grace, {"S17.failed"})
                                               \cup If(s.called > 0, {"S07.failed"}))
  \cup If(timeout /\ ( s.sc.hrt < 0 \/ ~waiting
                       \/ s.now - s.wait0 < s.sc.hrt
                       \/ HeadIn(s) ), {"S16.early"})
  \cup If(e.r = "ok" /\ s.sc.mode # "nosd" /\ ~s.sd /\ ~s.upgraded, {"S15.noshutdown"})
  \cup If(e.r = "ok" /\ open /\ s.svc[k] = "no", {"S17.abandoned", "S06.abandoned"})
  \cup If(e.r = "ok" /\ open /\ s.svc[k] = "ok" /\ s.ends < s.called
          /\ s.bst[k] # "err" /\ ~Faulted(s)
          /\ ~(s.closeend /\ s.bst[k] = "end" /\ s.unsent = 0), {"S17.abandoned", "S06.abandoned", "S15.cut"})
  \* closing although everything allows the next request
  \cup If(e.r = "ok" /\ AwaitsHead(s) /\ ~s.eof /\ ~Faulted(s) /\ ~s.grace, {"S07.closed", "S14.closed"})

(***************************************************************************)
(* Obligations at quiescence: nothing is scheduled to run any more.        *)
(* e.ok: the transport accepts output, flush and shutdown; e.left: bytes   *)
(* it still holds for us; e.term: it holds an unread end/failure; e.oq:    *)
(* response bodies with frames (or the end) ready that were not taken;     *)
(* e.sq: service futures with a response ready that was not taken.         *)
(***************************************************************************)
CheckQ(s, e) ==
  LET k == Cur(s)
      live == ~Ended(s) /\ e.conn > 0 /\ ~s.upgraded
      open == live /\ s.called > 0 /\ Known(s, k)
      r == IF s.called > 0 /\ Known(s, k) THEN Req(s, k) ELSE [be |-> -1]
      canhead == live /\ AwaitsHead(s)
      exdone == open /\ s.svc[k] = "ok" /\ s.bgone[k]
                /\ (RespDone(s, k) \/ (s.closeend /\ s.bst[k] = "end" /\ s.unsent = 0))
  IN
  \* a response that is ready is taken and written
       If(live /\ e.ok /\ e.sq > 0, {"S14.response"})
  \cup If(open /\ e.ok /\ s.svc[k] = "ok" /\ s.heads <= k /\ ~s.sc.pf, {"S14.head", "S15.head"})
  \* body frames that are ready are taken
  \cup If(open /\ e.ok /\ s.svc[k] = "ok" /\ ~s.bgone[k] /\ e.oq > 0, {"S14.body", "S12.resume"})
  \* everything taken is written
  \cup If(open /\ e.ok /\ ~Faulted(s) /\ s.unsent > 0 /\ ~s.sc.pf, {"S14.buffered", "S15.buffered"})
  \cup If(open /\ e.ok /\ s.heads > k /\ s.bst[k] = "end" /\ s.ends <= k /\ ~s.closeend /\ ~s.sc.pf, {"S14.terminator", "S15.terminator", "S06.unfinished"})
  \cup If(live /\ e.ok /\ s.dirty /\ ~s.sc.pf, {"S15.flush"})
  \* the interim response was demanded
  \cup If(open /\ e.ok /\ r.exp /\ s.asked[k] /\ s.c100 = 0 /\ s.heads <= k
          /\ s.rst[k] = "open" /\ s.lastp[k] /\ s.svc[k] = "no" /\ s.read = r.he /\ ~s.eof, {"S08.missing", "S14.continue"})
  \* a reader that is waiting gets what has arrived
  \cup If(open /\ s.rst[k] = "open" /\ s.lastp[k]
          /\ s.got[k] < Avail(r, s.read), {"S14.bodydata", "S13.resume"})
  \cup If(open /\ s.rst[k] = "open" /\ s.lastp[k] /\ BodyIn(s, k) /\ s.got[k] = r.n, {"S14.bodyend", "S02.bodyend"})
  \cup If(open /\ s.rst[k] = "open" /\ s.lastp[k] /\ ~BodyIn(s, k)
          /\ ~(r.bb >= 0 /\ r.bb <= s.read) /\ e.left > 0, {"S14.unread", "S13.resume"})
  \cup If(open /\ s.rst[k] = "open" /\ s.lastp[k] /\ (s.eof \/ s.rerr \/ (r.bb >= 0 /\ r.bb <= s.read)), {"S04.hang", "S03.hang"})
  \cup If(open /\ s.rst[k] = "open" /\ s.lastp[k] /\ e.term /\ e.left = 0, {"S14.eofunread", "S04.hang"})
  \cup If(Ended(s) /\ s.called > 0 /\ Known(s, k) /\ s.rst[k] = "open" /\ s.lastp[k], {"S04.hang", "S14.reader"})
  \* waiting for a request: input is read, complete heads are served
  \cup If(canhead /\ e.left > 0 /\ (e.ok \/ s.called = 0) /\ ~s.eof, {"S14.headunread"} \cup If(s.called > 0, {"S07.stuck"}))
  \cup If(canhead /\ HeadIn(s) /\ NextReq(s).bad = <<>> /\ e.ok, {"S14.uncalled", "S02.uncalled"} \cup If(s.called > 0, {"S07.stuck", "S06.stuck"}))
  \cup If(canhead /\ HeadIn(s) /\ NextReq(s).bad # <<>> /\ e.ok, {"S05.missing"})
  \cup If(canhead /\ e.ok /\ (s.eof \/ s.rerr \/ (e.left = 0 /\ e.term)), {"S14.eofopen", "S07.eofopen"})
  \* ... and the wait is bounded by the configured timeout
  \cup If(canhead /\ e.ok /\ s.sc.hrt >= 0 /\ s.waithi >= 0 /\ e.t - s.waithi >= s.sc.hrt, {"S16.missed"})
  \* an exchange that may not be followed by another ends the connection
  \cup If(exdone /\ e.ok /\ s.rst[k] # "open" /\ AppDone(s, k) /\ ~Reusable(s, k), {"S07.linger"} \cup If(s.grace, {"S17.linger"}))
  \cup If(exdone /\ e.ok /\ r.n = 0 /\ r.len /\ ~Reusable(s, k), {"S07.linger", "S14.linger"} \cup If(s.grace, {"S17.linger"}))
  \cup If(exdone /\ e.ok /\ s.rst[k] \in {"drop", "err"} /\ ~(BodyIn(s, k) /\ Reusable(s, k)), {"S07.linger", "S14.linger"} \cup If(s.grace, {"S17.linger"}))
  \* a dropped body was drained: the next request is still read
  \cup If(exdone /\ e.ok /\ s.rst[k] = "drop" /\ BodyIn(s, k) /\ Reusable(s, k) /\ (e.left > 0 \/ HeadIn(s)), {"S14.drained", "S07.stuck"})
  \cup If(live /\ e.ok /\ s.errhead, {"S05.linger"})
  \cup If(live /\ e.ok /\ s.gidle, {"S17.idle"})
  \cup If(live /\ e.ok /\ s.sd, {"S14.aftershutdown"})

Check0(s, e) ==
  CASE e.e = "rd"   -> CheckRd(s, e)
    [] e.e = "call" -> CheckCall(s, e)
    [] e.e = "rb"   -> CheckRb(s, e)
    [] e.e = "wr"   -> If(s.sd, {"S15.aftershutdown", "S05.aftershutdown", "S07.afterend"})
    [] e.e = "o100" -> CheckO100(s, e)
    [] e.e = "oh"   -> CheckOh(s, e)
    [] e.e = "ob"   -> CheckOb(s, e)
    [] e.e = "oe"   -> CheckOe(s, e)
    [] e.e = "bp"   -> CheckBp(s, e)
    [] e.e = "sd"   -> CheckSd(s, e)
    [] e.e = "conn" -> CheckConn(s, e)
    [] e.e = "q"    -> CheckQ(s, e)
    [] e.e = "bad"  -> {"S09.malformed", "S06.malformed", "S12.malformed", "S05.malformed", "S08.malformed"}
    [] e.e = "spin" -> {"S14.spin"}
    [] e.e = "panic" -> {"ANY.panic"}
    [] OTHER -> {}

Upd0(s, e) ==
  CASE e.e = "rd"   -> IF e.n = 0 THEN [s EXCEPT !.eof = TRUE] ELSE [s EXCEPT !.read = @ + e.n]
    [] e.e = "rderr" -> [s EXCEPT !.rerr = TRUE]
    [] e.e = "werr"  -> [s EXCEPT !.werr = TRUE]
    [] e.e = "call" -> IF ~Known(s, e.k) THEN s
                       ELSE [s EXCEPT !.called = MaxOf(@, e.k + 1), !.waithi = -1,
                                      !.gk = IF s.grace THEN @ ELSE e.k]
    [] e.e = "rb"   ->
         IF ~Known(s, e.k) THEN s ELSE
         CASE e.t = "d" -> [s EXCEPT !.got[e.k] = @ + e.n, !.asked[e.k] = TRUE, !.lastp[e.k] = FALSE]
           [] e.t = "p" -> [s EXCEPT !.asked[e.k] = TRUE, !.lastp[e.k] = TRUE]
           [] e.t = "t" -> [s EXCEPT !.asked[e.k] = TRUE, !.lastp[e.k] = FALSE, !.trs[e.k] = @ + 1]
           [] e.t = "end" -> [s EXCEPT !.rst[e.k] = IF @ = "err" THEN @ ELSE "end", !.asked[e.k] = TRUE, !.lastp[e.k] = FALSE]
           [] e.t = "err" -> [s EXCEPT !.rst[e.k] = "err", !.asked[e.k] = TRUE, !.lastp[e.k] = FALSE]
           [] e.t = "drop" -> [s EXCEPT !.rst[e.k] = IF @ = "open" THEN "drop" ELSE @, !.lastp[e.k] = FALSE]
           [] OTHER -> s
    [] e.e = "svc"  -> IF ~Known(s, e.k) THEN s
                       ELSE [s EXCEPT !.svc[e.k] = e.r, !.rclose[e.k] = e.close, !.rka[e.k] = e.ka, !.gsvc[e.k] = s.grace,
                                      !.rst0[e.k] = e.st, !.nobody[e.k] = e.nobody]
    [] e.e = "svcdrop" -> IF ~Known(s, e.k) THEN s ELSE [s EXCEPT !.svc[e.k] = IF @ = "no" THEN "drop" ELSE @]
    [] e.e = "bp"   -> IF ~Known(s, e.k) THEN s
                       ELSE CASE e.t = "d" -> [s EXCEPT !.prod[e.k] = @ + e.n, !.unsent = @ + e.n]
                              [] e.t = "end" -> [s EXCEPT !.bst[e.k] = "end"]
                              [] e.t = "e" -> [s EXCEPT !.bst[e.k] = "err"]
                              [] OTHER -> s
    [] e.e = "bd"   -> IF ~Known(s, e.k) THEN s
                       ELSE [s EXCEPT !.bgone[e.k] = TRUE,
                                      !.unsent = IF s.nobody[e.k] THEN @ - s.prod[e.k] ELSE @,
                                      !.prod[e.k] = IF s.nobody[e.k] THEN 0 ELSE @,
                                      !.bst[e.k] = IF @ = "open" /\ e.done THEN "end" ELSE @]
    [] e.e = "wr"   -> [s EXCEPT !.dirty = TRUE]
    [] e.e = "fl"   -> [s EXCEPT !.dirty = FALSE]
    [] e.e = "o100" -> [s EXCEPT !.c100 = @ + 1]
    [] e.e = "oh"   -> [s EXCEPT !.heads = @ + 1, !.c100 = 0, !.selfd = e.selfd, !.announced = e.close,
                                 !.errhead = @ \/ s.heads >= s.called,
                                 !.closeend = e.fr = "close",
                                 !.upgraded = e.up]
    [] e.e = "ob"   -> IF Known(s, s.ends) /\ s.ends < s.called
                       THEN [s EXCEPT !.wrote[s.ends] = @ + e.n, !.unsent = @ - e.n] ELSE s
    [] e.e = "oe"   -> [s EXCEPT !.ends = @ + 1, !.closeend = FALSE]
    [] e.e = "sd"   -> [s EXCEPT !.sd = TRUE]
    [] e.e = "conn" -> [s EXCEPT !.res = e.r]
    [] e.e = "conndrop" -> [s EXCEPT !.dropped = TRUE]
    [] e.e = "graceful" ->
         IF s.grace THEN s ELSE
         [s EXCEPT !.grace = TRUE,
                   !.gidle = /\ Idle(s) /\ ~Ended(s) /\ s.read = Boundary(s)
                              /\ (s.called > 0 => AppDone(s, Cur(s)) \/ s.rst[Cur(s)] # "open"),
                   !.gk = IF Idle(s) THEN (IF s.read > Boundary(s) THEN s.called ELSE -2)
                          ELSE Cur(s)]
    [] e.e = "q"    -> [s EXCEPT !.now = e.t,
                                 !.waithi = IF @ = -1 /\ e.ok /\ AwaitsHead(s) /\ ~s.dirty THEN e.t ELSE @]
    [] e.e = "t"    -> [s EXCEPT !.now = e.t]
    [] OTHER -> s

\* a trace is not judged beyond the point where the record stops
Check(s, e) == Check0(s, e)
Upd(s, e) ==
  LET t == Upd0(s, e) IN
  IF Idle(t) /\ ~Idle(s) THEN [t EXCEPT !.wait0 = t.now, !.waithi = -1] ELSE t
==============================================================================
