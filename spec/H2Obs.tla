-------------------------------- MODULE H2Obs --------------------------------
(***************************************************************************)
(* Observer for one HTTP/2 connection, either role: what the peer sent (once*)
(* hyper has read it), the frames hyper wrote, and what the application saw *)
(* and did. Exchanges are numbered 1..n (stream 2k-1 for a server; the      *)
(* client numbers its requests and learns the stream from the frames).      *)
(* Bytes are counted; whether their values are the right ones is recorded   *)
(* by the projection in `ok`.                                              *)
(*                                                                         *)
(* Properties: X02 graceful shutdown, X03 bodies out and in, X05 one outcome*)
(* per request and cancellation, X06 tunnels, X07 receive windows, X09      *)
(* failures stay on their stream.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
If(c, x) == IF c THEN x ELSE {}
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
MaxStream == 2147483647

X0 == [ \* what the peer did, as far as hyper read it
    ph |-> FALSE, pes |-> FALSE, pdn |-> 0, pov |-> 0, prc |-> -1, cn |-> FALSE, pcl |-> FALSE, pw |-> 0, ptr |-> FALSE,
    sid |-> 0, late |-> FALSE,          \* its head left after the peer had announced its leaving
    \* the application: the service call or request, and how it went
    call |-> FALSE, svc |-> "none", svcdrop |-> FALSE, st |-> 0, code |-> -1,
    send |-> FALSE, emp |-> FALSE, res |-> "none", resdrop |-> FALSE,
    \* the body it gave hyper: bytes taken, how it ended, when it was dropped; last non-empty chunk
    bpn |-> 0, be |-> FALSE, bend |-> "no", bd |-> "no", last |-> 0,
    \* what hyper wrote
    oh |-> FALSE, oes |-> FALSE, odn |-> 0, orc |-> -1, cred |-> 0,
    \* the body hyper gave the application
    rbn |-> 0, rbt |-> FALSE, rbend |-> "no",
    \* a tunnel
    up |-> "none", uwn |-> 0, umx |-> 0, usc |-> FALSE, us |-> FALSE, ud |-> FALSE, urn |-> 0, urend |-> "no", uwerr |-> FALSE
  ]

Init0(sc) == [
    sc |-> sc,
    x |-> [k \in 1 .. sc.n |-> X0],
    started |-> FALSE,                  \* the peer's first settings were read
    iws |-> 65535, iwsPend |-> <<>>, iwsTop |-> 65535,
    mcs |-> -1,                         \* the peer's limit on streams we open
    cpw |-> 0, codn |-> 0, ccred |-> 0, cover |-> 0,
    own |-> FALSE, ownAck |-> FALSE, ackFirst |-> FALSE,    \* our settings are out, acknowledged
    pgl |-> -1, pgc |-> 0,              \* the peer went away
    ogl |-> -1, ogn |-> 0, ogc |-> 0,
    grace |-> FALSE, shutAck |-> FALSE,
    fault |-> FALSE,                    \* the transport failed or ended, or the connection was dropped
    odd |-> FALSE,                      \* the peer sent something outside the script's protocol
    txdrop |-> FALSE, cdrop |-> FALSE, hs |-> "none", conn |-> "run", connto |-> FALSE, iodrop |-> FALSE
  ]

Srv(s) == s.sc.role = "server"
K(s) == 1 .. s.sc.n
Gone(s) == s.fault \/ s.odd \/ s.iodrop
Live(s) == ~Gone(s) /\ (Srv(s) => s.conn = "run")
Closed(x) == x.orc >= 0 \/ x.prc >= 0 \/ (x.oes /\ x.pes)
Refused(s, x) == s.pgl >= 0 /\ (x.sid = 0 \/ x.sid > s.pgl)     \* the peer will not answer it
Excluded(s, x) == Refused(s, x) \/ (s.pgl >= 0 /\ x.late)
\* our sending windows: the most the peer can have granted
IwsHi(s) == LET S == {s.iws} \cup {s.iwsPend[i] : i \in DOMAIN s.iwsPend} IN CHOOSE m \in S : \A y \in S : y <= m
IwsLo(s) == LET S == {s.iws} \cup {s.iwsPend[i] : i \in DOMAIN s.iwsPend} IN CHOOSE m \in S : \A y \in S : y >= m
SWin(s, x) == IwsHi(s) + x.pw - x.odn
SWinLo(s, x) == IwsLo(s) + x.pw - x.odn
CWin(s) == 65535 + s.cpw - s.codn
Tun(s, x) == x.cn /\ (Srv(s) => (x.svc = "ok" /\ x.st \in 200 .. 299))
Produced(s, x) == IF Tun(s, x) THEN x.uwn ELSE x.bpn
\* the reset codes this side may use on the stream
Justified(s, x, c) ==
    \/ Gone(s) \/ x.prc >= 0
    \/ x.svc = "err" /\ c = x.code
    \/ x.bend = "e" /\ c = x.code
    \/ c = 5 /\ (x.oes \/ x.orc >= 0 \/ Excluded(s, x))
    \/ c = 1 /\ x.pcl
    \/ x.cn /\ c \in {0, 2, 8}
    \/ IF Srv(s) THEN (x.oes /\ c \in {0, 8}) \/ (c = 7 /\ ~x.call)
       ELSE c = 8 /\ (x.late \/ x.res = "err" \/ x.resdrop \/ x.rbend = "drop" \/ s.txdrop)
\* reasons for a request to fail that are not hyper's doing
Cause(s, x) == Gone(s) \/ (~x.oh /\ (s.conn # "run" \/ s.cdrop)) \/ x.prc >= 0 \/ Excluded(s, x) \/ x.bend = "e" \/ (x.orc >= 0 /\ Justified(s, x, x.orc)) \/ x.pcl
               \/ (s.pgl >= 0 /\ s.pgc # 0) \/ s.hs = "err"

\* what of the incoming body has been given to the application, or given up by it
Taken(x) == IF x.cn THEN (IF x.ud \/ x.up = "err" \/ x.orc >= 0 \/ x.prc >= 0 THEN x.pdn ELSE x.urn)
            ELSE IF x.rbend \in {"drop", "err"} \/ x.res = "err" \/ x.resdrop \/ x.orc >= 0 \/ x.prc >= 0 \/ x.svcdrop \/ x.svc = "err" THEN x.pdn ELSE x.rbn

CheckOut(s, e) ==
  LET x == IF "k" \in DOMAIN e /\ e.k \in K(s) THEN s.x[e.k] ELSE X0 IN
  CASE e.e = "oh" ->
         IF e.tr
         THEN If(x.bend # "t" \/ ~e.ok, {"X03.trailers"}) \cup If(x.odn # x.bpn, {"X03.short"}) \cup If(~e.es, {"X03.trailers"})
              \cup If(~x.oh \/ x.oes \/ x.orc >= 0, {"X03.after"})
         ELSE If(x.oh \/ x.orc >= 0 \/ e.inf \/ ~e.ok, {"X03.head"})
              \cup If(Srv(s) /\ x.svc # "ok", {"X09.head"})
              \cup If(~Srv(s) /\ ~x.send, {"X03.head"})
              \cup If(e.es /\ (IF Srv(s) THEN x.bd # "done" ELSE ~(x.emp \/ x.be) \/ x.cn), {"X03.cut"})
              \cup If(e.es /\ x.bpn > 0, {"X03.short"})
    [] e.e = "od" ->
         LET t == Tun(s, x) IN
         If(~e.ok \/ x.odn + e.n > Produced(s, x), {IF t THEN "X06.data" ELSE "X03.data"})
         \cup If(~x.oh \/ x.oes \/ x.orc >= 0, {"X03.after"})
         \cup If(e.n > 0 /\ (e.n > SWin(s, x) \/ e.n > CWin(s)), {"X03.window"})
         \cup If(e.es, IF t THEN If(~x.usc /\ ~x.ud /\ ~x.resdrop, {"X06.cut"}) \cup If(x.odn + e.n # x.uwn, {"X06.short"})
                       ELSE If(x.bend = "e" \/ x.svc = "err", {"X09.ended"})
                            \cup If(~(x.bend = "end" \/ (x.bd = "done" /\ x.bend = "no")), {"X03.cut"})
                            \cup If(x.odn + e.n # x.bpn, {"X03.short"}))
    \* k = 0: the h2 crate resets a stream it never opened when the peer has gone away
    [] e.e = "or" -> If(x.orc < 0 /\ ~Justified(s, x, e.c) /\ ~(e.k = 0 /\ ~Srv(s) /\ s.pgl >= 0), {"X09.spurious"})
    [] e.e = "ow" ->
         IF e.k = 0
         THEN If(~s.sc.adaptive /\ s.ccred + e.n > Max2(0, s.sc.cwin - 65535) + s.cover
                    + SumTo([k \in K(s) |-> Taken(s.x[k]) + s.x[k].pov], s.sc.n), {"X07.conncredit"})
         ELSE If(x.cred + e.n > Taken(x) + x.pov, {"X07.credit"})
    [] e.e = "og" ->
         If(Srv(s) /\ \E k \in K(s) : s.x[k].call /\ s.x[k].sid > e.last, {"X02.last"})
         \cup If(Srv(s) /\ s.ogn > 0 /\ e.last > s.ogl, {"X02.last"})
         \cup If(Srv(s) /\ e.c # 0 /\ ~Gone(s) /\ s.conn = "run", {"X02.code"})
    [] OTHER -> {}

CheckApp(s, e) ==
  LET x == IF "k" \in DOMAIN e /\ e.k \in K(s) THEN s.x[e.k] ELSE X0 IN
  CASE e.e = "call" -> If(x.call \/ ~x.ph \/ ~e.ok, {"X05.call"}) \cup If(s.ogn > 0 /\ e.s > s.ogl, {"X02.extra"})
    [] e.e = "res" ->
         If(x.res # "none" \/ ~x.send, {"X05.twice"})
         \cup (IF e.r = "ok" THEN If(~x.ph \/ ~e.ok, {"X05.wrong"})
               ELSE If(~Cause(s, x) /\ ~e.to, {"X05.err"})
                    \cup If(x.ph /\ ~x.pcl /\ x.prc < 0 /\ x.orc < 0 /\ x.bend # "e" /\ ~Excluded(s, x) /\ ~Gone(s) /\ ~e.to, {"X05.err"})
                    \cup If(e.back /\ x.oh, {"X05.back"}))
    [] e.e = "bp" ->
         IF e.t # "d" THEN If(x.bend \in {"t", "e"}, {"X03.polled"})
         ELSE If(e.n > 0 /\ x.last > 0 /\ ~x.cn /\ (x.bpn - x.last >= s.iwsTop + x.pw \/ x.bpn - x.last - x.odn >= s.sc.sendbuf + 65536), {"X03.greedy"})
              \cup If(x.bend # "no", {"X03.polled"})
    [] e.e = "rb" ->
         IF x.cn /\ e.t \in {"end", "drop"} THEN {}
         ELSE CASE e.t = "d" -> If(~e.ok \/ x.rbn + e.n > x.pdn \/ x.rbend # "no", {"X03.recv"})
                [] e.t = "t" -> If(~e.ok \/ ~x.ptr \/ x.rbn # x.pdn, {"X03.recv"})
                [] e.t = "end" -> If(~(x.pes /\ x.rbn = x.pdn /\ (x.ptr => x.rbt)) /\ x.prc # 0 /\ ~(x.code = 0 /\ (x.svc = "err" \/ x.bend = "e")), {"X03.trunc"})
                [] e.t = "err" -> If(~(x.prc > 0 \/ Gone(s) \/ s.conn # "run" \/ x.orc >= 0 \/ x.pcl \/ s.pgl >= 0 \/ x.svc = "err" \/ x.bend = "e"
                                       \/ x.resdrop \/ s.ogn > 0 \/ s.sc.int > 0), {"X03.recverr"})
                [] OTHER -> {}
    [] e.e = "up" ->
         If(x.up # "none", {"X06.twice"})
         \cup (IF e.r = "ok" THEN If(~x.cn \/ (IF Srv(s) THEN x.svc # "ok" \/ x.st < 200 \/ x.st > 299 ELSE x.res # "ok" \/ x.st # 200), {"X06.granted"})
               ELSE If(x.cn /\ ~Gone(s) /\ s.conn = "run" /\ (IF Srv(s) THEN x.svc = "ok" /\ x.st \in 200 .. 299 /\ x.prc < 0 ELSE x.res = "ok" /\ x.st = 200), {"X06.denied"}))
    [] e.e = "ur" -> IF e.n > 0 THEN If(~e.ok \/ x.urn + e.n > x.pdn, {"X06.recv"})
                     ELSE If(~(x.pes /\ x.urn = x.pdn) /\ x.prc \notin {0, 8} /\ x.orc < 0, {"X06.trunc"})
    [] e.e \in {"urerr", "uwerr"} -> If(~(x.prc >= 0 \/ Gone(s) \/ s.conn # "run" \/ x.orc >= 0 \/ s.pgl >= 0 \/ (e.e = "uwerr" /\ x.usc)), {"X06.fail"})
    [] e.e = "us" -> If(~e.ok /\ ~(x.prc >= 0 \/ Gone(s) \/ s.conn # "run" \/ s.pgl >= 0), {"X06.fail"})
                     \cup If(e.ok /\ ~x.uwerr /\ ~Gone(s) /\ x.prc < 0 /\ s.conn = "run" /\ x.orc < 0 /\ FALSE, {"X06.fail"})
    [] e.e = "conn" ->
         IF ~Srv(s) THEN {}
         ELSE IF e.r = "ok"
              THEN If(~Gone(s) /\ ~s.grace /\ s.pgl < 0, {"X02.cause"})
                   \cup If(~Gone(s) /\ s.pgl < 0 /\ \E k \in K(s) : s.x[k].call /\ ~(s.x[k].oes \/ s.x[k].orc >= 0 \/ s.x[k].prc >= 0), {"X02.premature"})
              ELSE If(~Gone(s) /\ ~e.to /\ s.pgl < 0, {"X02.err"})
    [] e.e = "iodrop" -> If(~Srv(s) /\ ~Gone(s) /\ s.pgl < 0 /\ ~s.txdrop /\ ~s.cdrop /\ s.sc.int <= 0 /\ s.hs = "ok"
                            /\ \E k \in K(s) : s.x[k].send /\ s.x[k].res = "none" /\ ~s.x[k].resdrop, {"X05.dropped"})
    [] e.e = "crash" -> {e.c}
    [] OTHER -> {}

\* the h2 crate (0.4.20) never forgets a stream reset by the peer after its last handle was dropped, data was left
\* to send, and the request had not ended
Leaked(s, x) == x.prc >= 0 /\ ~x.pes /\ x.odn < Produced(s, x)
CheckQ(s, e) ==
  LET up == e.ok /\ e.inn = 0 /\ Live(s)             \* everything hyper could do has been done
      ready == up /\ s.started /\ s.own
      strict == ready /\ s.iwsPend = <<>>
      X(k) == s.x[k]
      opened == Cardinality({k \in K(s) : X(k).oh /\ ~Closed(X(k))})
      InQ(q, k) == \E i \in DOMAIN q : q[i] = k
      Win(k) == CWin(s) > s.sc.n /\ SWinLo(s, X(k)) > 0
  IN UNION {
       LET x == X(k) IN
       \* --- bodies going out
       If(strict /\ x.oh /\ ~x.oes /\ x.orc < 0 /\ x.prc < 0 /\ ~Excluded(s, x) /\ ~x.cn /\ ~x.resdrop /\ ~(Srv(s) /\ x.svc # "ok"),
          If(Win(k) /\ x.bpn > x.odn, {"X03.stuck"})
          \cup If(x.bpn = x.odn /\ x.bend \in {"end", "t"}, {"X03.noend"})
          \cup If(x.bpn = x.odn /\ x.bend = "no" /\ x.bd = "no" /\ InQ(e.oq, k), {"X03.lazy"})
          \cup If(x.bpn = x.odn /\ x.bend = "no" /\ x.bd = "done", {"X03.noend"})
          \cup If(x.bd = "part", {"X03.lost"}))
       \* --- bodies coming in
       \cup If(InQ(e.rq, k) /\ up /\ ~x.cn /\ (x.rbn < x.pdn \/ x.pes), {"X03.readstall"})
       \cup If(InQ(e.rq, k) /\ e.ok /\ e.inn = 0 /\ ~x.cn /\ (x.prc >= 0 \/ s.iodrop \/ s.fault \/ (Srv(s) /\ s.conn # "run")), {"X09.readhang"})
       \* --- outcomes
       \cup If(ready /\ x.send /\ x.res = "none" /\ ~x.resdrop,
               If(x.ph \/ x.prc >= 0 \/ (Refused(s, x) /\ (x.oh \/ s.mcs < 0 \/ opened < s.mcs)) \/ x.bend = "e" \/ x.orc >= 0, {"X05.hang"})
               \cup If(~x.oh /\ s.conn = "run" /\ ~s.cdrop /\ s.pgl < 0 /\ (s.mcs < 0 \/ opened < s.mcs), {"X05.unsent"}))
       \cup If(x.send /\ x.res = "none" /\ ~x.resdrop /\ (s.iodrop \/ s.hs = "err"), {"X05.hang"})
       \cup If(ready /\ x.send /\ x.resdrop /\ x.oh /\ x.res = "none",
               If(~Closed(x) /\ s.pgl < 0, {"X05.cancel"}) \cup If(x.bd = "no" /\ ~x.cn, {"X05.bodyleak"}))
       \cup If(ready /\ Srv(s) /\ s.conn = "run" /\ x.ph /\ ~x.call /\ x.orc < 0 /\ x.prc < 0 /\ (s.ogn = 0 \/ x.sid <= s.ogl) /\ ~x.pcl, {"X05.uncalled"})
       \* --- failures
       \cup If(ready /\ Srv(s) /\ x.svc = "err" /\ x.orc < 0 /\ x.prc < 0, {"X09.noreset"})
       \cup If(ready /\ x.bend = "e" /\ x.oh /\ x.orc < 0 /\ x.prc < 0 /\ ~x.oes /\ ~Excluded(s, x), {"X09.noreset"})
       \cup If(ready /\ Srv(s) /\ x.prc >= 0 /\ x.call /\ x.svc = "none" /\ ~x.svcdrop, {"X09.svcleak"})
       \cup If(ready /\ (x.prc >= 0 \/ x.orc >= 0) /\ ~x.cn /\ x.bd = "no" /\ (IF Srv(s) THEN x.svc = "ok" ELSE x.oh /\ x.res # "none"), {"X09.bodyleak"})
       \* --- credit
       \cup If(up /\ s.ackFirst /\ x.rbend = "no" /\ InQ(e.rq, k) /\ x.rbn = x.pdn /\ \E i \in DOMAIN e.pq : e.pq[i][1] = k /\ e.pq[i][2] > 0 /\ e.pq[i][3] <= 0, {"X07.stall"})
       \cup If(up /\ x.cn /\ x.up = "ok" /\ x.urend = "no" /\ x.urn = x.pdn /\ ~x.ud /\ s.ackFirst /\ \E i \in DOMAIN e.pq : e.pq[i][1] = k /\ e.pq[i][2] > 0 /\ e.pq[i][3] <= 0, {"X07.stall"})
       \* --- tunnels
       \cup LET tun == x.up = "ok" /\ ~x.ud
                rd == tun /\ x.urend = "no" /\ \E i \in DOMAIN e.ups : e.ups[i][1] = k /\ e.ups[i][2]
                wr == tun /\ ~x.uwerr /\ \E i \in DOMAIN e.ups : e.ups[i][1] = k /\ e.ups[i][3] > 0
                sd == tun /\ InQ(e.usd, k)
                openw == strict /\ x.up = "ok" /\ x.oh /\ ~x.oes /\ x.orc < 0 /\ x.prc < 0 /\ ~Excluded(s, x)
            IN If(up /\ rd /\ (x.urn < x.pdn \/ x.pes), {"X06.stall"})
               \cup If(e.ok /\ e.inn = 0 /\ (rd \/ wr \/ sd) /\ (x.prc >= 0 \/ s.fault \/ s.iodrop \/ (Srv(s) /\ s.conn # "run")), {"X06.hang"})
               \cup If(openw /\ Win(k) /\ (x.uwn > x.odn \/ wr), {"X06.stuck"})
               \cup If(openw /\ x.uwn = x.odn /\ (x.ud \/ (x.usc /\ ~wr)), {"X06.noend"})
               \cup If(tun /\ x.uwn - x.odn > 4 * x.umx + 16384, {"X06.backlog"})
       \cup If(up /\ x.cn /\ x.call /\ x.up = "none" /\ ~x.ud /\ InQ([i \in DOMAIN e.ups |-> e.ups[i][1]], k) /\ x.svc # "none", {"X06.hang"})
     : k \in K(s)}
  \cup If(up /\ ~s.sc.adaptive /\ e.pcw <= 0 /\ e.pq # <<>> /\ \A k \in K(s) : Taken(X(k)) = X(k).pdn, {"X07.connstall"})
  \* --- shutdown
  \cup If(ready /\ Srv(s) /\ s.grace /\ s.ogn = 0, {"X02.nogoaway"})
  \cup If(ready /\ Srv(s) /\ s.grace /\ s.shutAck /\ s.conn = "run" /\ \A k \in K(s) : (X(k).ph /\ X(k).sid <= s.ogl) => Closed(X(k)) /\ ~Leaked(s, X(k)), {"X02.hang"})

Check(s, e) == IF e.e = "q" THEN CheckQ(s, e)
               ELSE IF e.e \in {"oh", "od", "or", "ow", "og"} THEN CheckOut(s, e) ELSE CheckApp(s, e)

Upd0(s, e) ==
  CASE e.e = "ph" -> IF e.inf THEN s
                     ELSE [s EXCEPT !.x[e.k].ph = TRUE, !.x[e.k].pes = @ \/ e.es, !.x[e.k].cn = @ \/ e.cn, !.x[e.k].pcl = @ \/ e.cl,
                                    !.x[e.k].sid = IF Srv(s) THEN 2 * e.k - 1 ELSE @]
    [] e.e = "pd" -> [s EXCEPT !.x[e.k].pdn = @ + e.n, !.x[e.k].pes = @ \/ e.es, !.x[e.k].pov = @ + e.over]
    [] e.e = "pt" -> [s EXCEPT !.x[e.k].pes = TRUE, !.x[e.k].ptr = TRUE]
    [] e.e = "pr" -> [s EXCEPT !.x[e.k].prc = IF @ >= 0 \/ Closed(s.x[e.k]) THEN @ ELSE e.c]
    [] e.e = "pw" -> IF e.k = 0 THEN [s EXCEPT !.cpw = @ + e.n] ELSE [s EXCEPT !.x[e.k].pw = @ + e.n]
    [] e.e = "ps" ->
         IF e.ack THEN [s EXCEPT !.ownAck = TRUE, !.ackFirst = \A k \in K(s) : s.x[k].pdn = 0]
         ELSE [s EXCEPT !.iwsPend = Append(@, IF e.iws >= 0 THEN e.iws ELSE IF @ = <<>> THEN s.iws ELSE @[Len(@)]),
                        !.iwsTop = IF e.iws < 0 THEN @ ELSE IF \A k \in K(s) : s.x[k].bpn = 0 THEN e.iws ELSE Max2(@, e.iws),
                        !.mcs = IF e.mcs >= 0 THEN e.mcs ELSE @, !.started = TRUE]
    [] e.e = "pp" -> IF e.ack /\ e.c = "shut" THEN [s EXCEPT !.shutAck = TRUE] ELSE s
    [] e.e = "pg" -> [s EXCEPT !.pgl = IF @ < 0 THEN e.last ELSE Min2(@, e.last), !.pgc = IF @ = 0 THEN e.c ELSE @]
    [] e.e = "px" -> [s EXCEPT !.odd = TRUE]
    [] e.e \in {"peof", "perr", "werr"} -> [s EXCEPT !.fault = TRUE]
    [] e.e = "conndrop" -> IF Srv(s) THEN [s EXCEPT !.fault = TRUE] ELSE [s EXCEPT !.cdrop = TRUE]
    [] e.e = "os" -> IF e.ack THEN [s EXCEPT !.iws = IF s.iwsPend = <<>> THEN @ ELSE s.iwsPend[1],
                                             !.iwsPend = IF @ = <<>> THEN @ ELSE Tail(@)]
                     ELSE [s EXCEPT !.own = TRUE]
    [] e.e = "oh" -> IF e.tr THEN [s EXCEPT !.x[e.k].oes = TRUE]
                     ELSE [s EXCEPT !.x[e.k].oh = TRUE, !.x[e.k].late = s.pgl >= 0, !.x[e.k].oes = @ \/ e.es, !.x[e.k].sid = e.s]
    [] e.e = "od" -> [s EXCEPT !.x[e.k].odn = @ + e.n, !.x[e.k].oes = @ \/ e.es, !.codn = @ + e.n]
    [] e.e = "or" -> [s EXCEPT !.x[e.k].orc = IF @ < 0 THEN e.c ELSE @]
    [] e.e = "ow" -> IF e.k = 0 THEN [s EXCEPT !.ccred = @ + e.n] ELSE [s EXCEPT !.x[e.k].cred = @ + e.n]
    [] e.e = "og" -> [s EXCEPT !.ogl = e.last, !.ogn = @ + 1, !.ogc = e.c]
    [] e.e = "call" -> [s EXCEPT !.x[e.k].call = TRUE, !.x[e.k].code = e.code]
    [] e.e = "svc" -> [s EXCEPT !.x[e.k].svc = e.r, !.x[e.k].st = e.st]
    [] e.e = "svcdrop" -> [s EXCEPT !.x[e.k].svcdrop = TRUE]
    [] e.e = "send" -> [s EXCEPT !.x[e.k].send = TRUE, !.x[e.k].code = e.code, !.x[e.k].cn = e.cn, !.x[e.k].emp = e.emp]
    [] e.e = "res" -> [s EXCEPT !.x[e.k].res = e.r, !.x[e.k].st = e.st]
    [] e.e = "resdrop" -> [s EXCEPT !.x[e.k].resdrop = TRUE]
    [] e.e = "txdrop" -> [s EXCEPT !.txdrop = TRUE]
    [] e.e = "rb" -> CASE e.t = "d" -> [s EXCEPT !.x[e.k].rbn = @ + e.n]
                       [] e.t = "t" -> [s EXCEPT !.x[e.k].rbt = TRUE]
                       [] e.t \in {"end", "err", "drop"} -> [s EXCEPT !.x[e.k].rbend = IF @ = "no" THEN e.t ELSE @]
                       [] OTHER -> s
    [] e.e = "bp" -> IF e.t = "d" THEN [s EXCEPT !.x[e.k].bpn = @ + e.n, !.x[e.k].last = IF e.n > 0 THEN e.n ELSE @]
                     ELSE [s EXCEPT !.x[e.k].bend = IF @ = "no" THEN e.t ELSE @]
    [] e.e = "be" -> [s EXCEPT !.x[e.k].be = TRUE]
    [] e.e = "bd" -> [s EXCEPT !.x[e.k].bd = IF e.done \/ s.x[e.k].bend # "no" THEN "done" ELSE "part"]
    [] e.e = "up" -> [s EXCEPT !.x[e.k].up = e.r]
    [] e.e = "uw" -> [s EXCEPT !.x[e.k].uwn = @ + e.n, !.x[e.k].umx = Max2(@, e.n)]
    [] e.e = "uwerr" -> [s EXCEPT !.x[e.k].uwerr = TRUE]
    [] e.e = "usc" -> [s EXCEPT !.x[e.k].usc = TRUE]
    [] e.e = "us" -> [s EXCEPT !.x[e.k].us = TRUE]
    [] e.e = "ud" -> [s EXCEPT !.x[e.k].ud = TRUE]
    [] e.e = "ur" -> [s EXCEPT !.x[e.k].urn = @ + e.n, !.x[e.k].urend = IF e.n = 0 THEN "end" ELSE @]
    [] e.e = "urerr" -> [s EXCEPT !.x[e.k].urend = "err"]
    [] e.e = "conn" -> [s EXCEPT !.conn = e.r, !.connto = e.to]
    [] e.e = "hs" -> [s EXCEPT !.hs = e.r]
    [] e.e = "iodrop" -> [s EXCEPT !.iodrop = TRUE]
    [] e.e = "graceful" -> [s EXCEPT !.grace = TRUE]
    [] OTHER -> s

\* the h2 crate does not remember streams it refused or ignored: what the peer still sends on them fails the connection
Forgotten(s, e) == LET x == s.x[e.k] IN
    ~x.call /\ x.ph /\ (x.orc >= 0 \/ s.shutAck \/ (s.ogn > 0 /\ x.sid > s.ogl) \/ (e.e = "pt" /\ s.sc.maxstreams < s.sc.n))
Upd(s, e) == LET t == Upd0(s, e) IN
    IF e.e \in {"pt", "pw", "pr", "pd"} /\ Srv(s) /\ e.k > 0 /\ Forgotten(s, e) THEN [t EXCEPT !.odd = TRUE] ELSE t
==============================================================================
