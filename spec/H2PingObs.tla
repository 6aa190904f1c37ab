------------------------------ MODULE H2PingObs ------------------------------
(***************************************************************************)
(* Observer for what one HTTP/2 connection does with pings: keep-alive      *)
(* (X01) and the adaptive receive window (X08). It reads the same events as *)
(* H2Obs; time is the virtual clock of the harness (event t), and the wire  *)
(* is known to take data as long as the last quiescence report says so.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
If(c, x) == IF c THEN x ELSE {}
Max2(a, b) == IF a > b THEN a ELSE b
Limit == 16777216                       \* no window is ever announced above this
Y0 == [ph |-> FALSE, pes |-> FALSE, cn |-> FALSE, send |-> FALSE, oh |-> FALSE, out |-> FALSE, got |-> FALSE, over |-> FALSE,
       rec |-> FALSE, held |-> FALSE, bd |-> FALSE, taken |-> 0, pdn |-> 0, pov |-> 0, gone |-> FALSE]
Init0(sc) == [
    sc |-> sc, y |-> [k \in 1 .. sc.n |-> Y0],
    now |-> 0, clear |-> TRUE, shut |-> FALSE, started |-> FALSE, hs |-> FALSE,
    min |-> 0, minB |-> 0,      \* the last moment something certainly counted as heard; the same, before now
    max |-> 0,                  \* the last moment something may have
    ping |-> -1,                \* a ping is out, since
    pong |-> -1,                \* the last answer
    sure |-> TRUE,              \* nothing but keep-alive can have stopped since the ping
    iws |-> -1, set |-> 0,      \* the announced window, announcements
    cur |-> 0, prev |-> 0,      \* data taken since the last pong, and between the last two
    fresh |-> FALSE,            \* a pong arrived since the last announcement
    since |-> FALSE,            \* data was taken since the last ping
    ccred |-> 0, quiet |-> FALSE,
    acked |-> TRUE, lag |-> FALSE,      \* a pong came while our settings were not acknowledged: a new window cannot be announced
    gone |-> FALSE, fault |-> FALSE, odd |-> FALSE, conn |-> "run", iodrop |-> FALSE, busy |-> FALSE
  ]
Srv(s) == s.sc.role = "server"
K(s) == 1 .. s.sc.n
Ka(s) == s.sc.int > 0
Bdp(s) == s.sc.adaptive
Idle(s) == s.sc.idle
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Dead(s) == s.fault \/ s.odd \/ s.iodrop \/ s.conn # "run" \/ s.gone
\* a client with a request that certainly waits for its response
Waiting(s) == \E k \in K(s) : s.y[k].oh /\ ~s.y[k].got /\ ~s.y[k].over
\* nothing of any exchange is left
AtRest(s) == \A k \in K(s) : ~s.y[k].cn /\ (~s.y[k].send \/ s.y[k].gone \/ ((s.y[k].over \/ s.y[k].got) /\ ~s.y[k].held /\ (s.y[k].bd \/ ~s.y[k].oh)))

\* what a tunnel may hold of a frame it took
Unread(s) == SumTo([k \in K(s) |-> IF s.y[k].cn THEN Max2(0, s.y[k].pdn - s.y[k].taken) ELSE 0], s.sc.n)
Late(s) == s.ping >= 0 /\ s.now >= s.ping + s.sc.to
TimedOut(s, e) == "to" \in DOMAIN e /\ e.to
Check(s, e) ==
  CASE e.e = "op" /\ ~e.ack /\ e.c = "user" ->
         If(~Ka(s) /\ ~Bdp(s), {"X01.off"})
         \cup If(s.ping >= 0, {"X08.pings"})
         \cup If(~Bdp(s) /\ Ka(s) /\ s.clear /\ ~s.shut /\ s.now < s.minB + s.sc.int, {"X01.early"})
         \cup If(~Ka(s) /\ Bdp(s) /\ ~s.since, {"X08.noreason"})
         \cup If(~Srv(s) /\ ~Idle(s) /\ Ka(s) /\ s.quiet, {"X01.idle"})
    [] e.e \in {"conn", "res"} /\ TimedOut(s, e) ->
         If(~Ka(s), {"X01.off"}) \cup If(Ka(s) /\ s.clear /\ ~s.shut /\ ~Bdp(s) /\ ~Late(s), {"X01.spurious"})
         \cup If(Ka(s) /\ s.now < s.sc.to + (IF Bdp(s) THEN 0 ELSE s.sc.int), {"X01.spurious"})
         \cup If(Ka(s) /\ s.pong >= 0 /\ s.ping < 0 /\ s.now < s.pong + s.sc.to, {"X01.spurious"})
    [] e.e = "os" /\ ~e.ack ->
         IF s.set = 0
         THEN If(e.iws # s.sc.swin, {"X08.config"})
         ELSE If(~Bdp(s), {"X08.off"})
              \cup If(Bdp(s) /\ e.iws <= Max2(s.iws, 65535), {"X08.shrink"})
              \cup If(e.iws > Limit, {"X08.limit"})
              \cup If(Bdp(s) /\ (~s.fresh \/ e.iws > 2 * (s.prev + s.cur + Unread(s))), {"X08.reason"})
    [] e.e = "q" ->
         LET up == e.ok /\ e.inn = 0 /\ ~Dead(s) /\ s.started /\ s.hs
         IN If(up /\ Ka(s) /\ s.ping < 0 /\ ~s.shut /\ s.now >= s.max + s.sc.int /\ (Idle(s) \/ Waiting(s)), {"X01.noping"})
            \cup If(up /\ Ka(s) /\ ~Bdp(s) /\ Late(s), {"X01.missed"})
            \cup If(up /\ Ka(s) /\ Bdp(s) /\ Idle(s) /\ s.ping >= 0 /\ s.now >= Max2(s.ping, s.max + s.sc.int) + s.sc.to, {"X01.missed"})
            \* blocked, it cannot tell, but it ends all the same
            \cup If(~Dead(s) /\ Ka(s) /\ Srv(s) /\ s.hs /\ s.now >= s.max + s.sc.int + s.sc.to /\ s.ping < 0 /\ ~e.ok /\ e.inn = 0, {"X01.blocked"})
            \cup If(up /\ Bdp(s) /\ ~s.lag /\ s.ccred > Max2(s.iws, 65535) - 65535 + SumTo([k \in K(s) |-> s.y[k].pdn + s.y[k].pov], s.sc.n), {"X08.conn"})
            \cup If(up /\ s.sc.cwin >= 140000 /\ s.ccred < s.sc.cwin - 65535, {"X08.config"})
    [] OTHER -> {}

Heard(s, sure) == [s EXCEPT !.max = s.now, !.min = IF sure THEN s.now ELSE @]
Take(s, n) == [s EXCEPT !.cur = @ + n, !.since = TRUE]
Upd(s, e) ==
  CASE e.e = "t" -> [s EXCEPT !.now = e.t, !.minB = s.min]
    [] e.e = "ps" -> IF e.ack THEN [s EXCEPT !.acked = TRUE] ELSE IF s.started THEN s ELSE [s EXCEPT !.started = TRUE, !.max = s.now, !.hs = IF Srv(s) THEN TRUE ELSE @]
    [] e.e = "os" -> IF e.ack THEN s
                     ELSE [s EXCEPT !.set = @ + 1, !.iws = e.iws, !.acked = FALSE, !.fresh = FALSE, !.hs = TRUE, !.max = IF s.set = 0 THEN s.now ELSE @]
    [] e.e = "ow" -> IF e.k = 0 THEN [s EXCEPT !.ccred = @ + e.n] ELSE s
    [] e.e = "op" -> IF ~e.ack /\ e.c = "user" THEN [s EXCEPT !.ping = s.now, !.since = FALSE, !.quiet = FALSE]
                     ELSE IF e.c = "shut" THEN [s EXCEPT !.shut = TRUE] ELSE s
    [] e.e = "pp" -> IF e.ack /\ e.c = "shut" THEN [s EXCEPT !.shut = FALSE, !.clear = FALSE, !.max = s.now] ELSE IF e.ack /\ e.c = "user" /\ s.ping >= 0
                     THEN [Heard(s, TRUE) EXCEPT !.ping = -1, !.pong = s.now, !.prev = s.cur, !.cur = 0, !.fresh = TRUE, !.lag = @ \/ ~s.acked]
                     ELSE s
    [] e.e = "ph" -> IF e.inf THEN s
                     ELSE [Heard(s, FALSE) EXCEPT !.y[e.k].ph = TRUE, !.y[e.k].pes = @ \/ e.es, !.y[e.k].cn = @ \/ e.cn, !.quiet = FALSE]
    [] e.e = "pd" -> [s EXCEPT !.y[e.k].pes = @ \/ e.es, !.y[e.k].pdn = @ + e.n, !.y[e.k].pov = @ + e.over, !.since = TRUE, !.max = s.now]
    [] e.e = "pt" -> [s EXCEPT !.y[e.k].pes = TRUE]
    [] e.e = "oh" -> [s EXCEPT !.y[e.k].oh = TRUE, !.quiet = FALSE]
    [] e.e = "call" -> [Heard(s, TRUE) EXCEPT !.y[e.k].rec = ~s.y[e.k].pes, !.y[e.k].send = TRUE, !.y[e.k].held = TRUE]
    [] e.e = "send" -> [s EXCEPT !.y[e.k].send = TRUE, !.y[e.k].cn = e.cn, !.y[e.k].bd = e.emp, !.quiet = FALSE, !.max = s.now]
    [] e.e = "res" -> IF e.r = "ok" THEN [Heard(s, TRUE) EXCEPT !.y[e.k].got = TRUE, !.y[e.k].rec = ~s.y[e.k].pes, !.y[e.k].held = TRUE]
                      ELSE [s EXCEPT !.y[e.k].over = TRUE, !.max = s.now]
    [] e.e = "resdrop" -> [s EXCEPT !.y[e.k].over = TRUE, !.max = s.now]
    [] e.e = "bd" -> [s EXCEPT !.y[e.k].bd = TRUE]
    [] e.e = "rb" -> CASE e.t = "d" -> Take(Heard(s, s.y[e.k].rec), e.n)
                       [] e.t \in {"t", "end"} -> Heard(s, FALSE)
                       [] e.t = "drop" -> [s EXCEPT !.y[e.k].held = FALSE]
                       [] OTHER -> s
    [] e.e = "ur" -> [Take(Heard(s, FALSE), e.n) EXCEPT !.y[e.k].taken = @ + e.n]
    [] e.e = "q" -> [s EXCEPT !.clear = e.ok, !.quiet = (e.ok /\ e.inn = 0 /\ AtRest(s))]
    [] e.e = "px" -> [s EXCEPT !.odd = TRUE]
    [] e.e = "pg" -> [s EXCEPT !.gone = TRUE]
    [] e.e \in {"peof", "perr", "werr", "conndrop"} -> [s EXCEPT !.fault = TRUE]
    [] e.e = "conn" -> [s EXCEPT !.conn = e.r]
    [] e.e = "iodrop" -> [s EXCEPT !.iodrop = TRUE]
    [] OTHER -> s
==============================================================================
