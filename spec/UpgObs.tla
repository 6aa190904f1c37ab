-------------------------------- MODULE UpgObs --------------------------------
(***************************************************************************)
(* Observer for one HTTP/1 upgrade, either role (property S11): a candidate *)
(* exchange on a connection, the handle the application asks for it, and    *)
(* the stream handed over. Bytes are counted; whether their values are      *)
(* right is recorded by the harness in the field `ok`.                      *)
(*                                                                         *)
(* sc : mode  "upg" (with_upgrades), "plain", "nosd" (poll_without_shutdown)*)
(*      wants the request may upgrade (Upgrade on HTTP/1.1, or CONNECT)     *)
(*      agree the response upgrades it                                      *)
(*      he    offset in the incoming bytes at which the candidate message   *)
(*            ends, so where the stream begins                              *)
(*      hc    the connection goes on when the peer has finished sending     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
If(c, x) == IF c THEN x ELSE {}

Init0(sc) == [
    sc |-> sc,
    fed |-> 0, read |-> 0, eof |-> FALSE,
    called |-> FALSE,                \* the handle exists
    handle |-> TRUE,                 \* the application kept it
    oh |-> FALSE,                    \* our message is completely on the wire
    decl |-> FALSE,                  \* the response that declines has left / arrived
    bdone |-> FALSE, bdrop |-> FALSE,\* the incoming body: taken, abandoned
    up |-> "none", gone |-> FALSE,   \* how the handle resolved; the stream was given up
    ured |-> 0, ueof |-> FALSE, uacc |-> 0, uout |-> 0,
    usd |-> FALSE, sd |-> FALSE, parts |-> FALSE,
    conn |-> "run", fault |-> FALSE  \* the transport failed, or the connection was dropped
  ]

Upgrades(s) == s.sc.wants /\ s.sc.agree
\* the exchange cannot be completed: the transport failed, the incoming message was abandoned or
\* ends early, or the peer left while the connection does not allow for that
Lost(s) == s.fault \/ (s.bdrop /\ ~s.bdone) \/ (s.eof /\ (s.fed < s.sc.he \/ ~s.sc.hc \/ ~s.oh))
\* everything the hand-over waits for has happened
Due(s) == Upgrades(s) /\ s.called /\ s.oh /\ (s.bdone \/ s.bdrop) /\ s.fed >= s.sc.he

Check(s, e) ==
  CASE e.e = "up" ->
         If(s.up # "none", {"S11.twice"})
         \cup (IF e.r = "ok"
               THEN If(~Upgrades(s) \/ s.sc.mode # "upg", {"S11.granted"})
                    \cup If(~s.oh, {"S11.early"}) \cup If(s.read < s.sc.he, {"S11.early"})
               ELSE If(Upgrades(s) /\ s.sc.mode = "upg" /\ ~Lost(s), {"S11.denied"}))
    [] e.e = "ur" -> If(~e.ok, {"S11.bytes"}) \cup If(e.n = 0 /\ ~(s.eof /\ s.sc.he + s.ured = s.fed), {"S11.eof"})
                     \cup If(e.n > 0 /\ s.sc.he + s.ured + e.n > s.read, {"S11.bytes"})
    [] e.e = "urerr" -> If(~s.fault, {"S11.fail"})
    [] e.e = "raw" -> If(~e.ok, {"S11.bytes"}) \cup If(s.up # "ok", {"S11.raw"})
    [] e.e = "uwerr" -> If(~s.fault, {"S11.fail"})
    [] e.e = "sd" -> If(s.sd, {"S11.shutdown"}) \cup If(Upgrades(s) /\ s.oh /\ ~s.usd /\ ~Lost(s), {"S11.shutdown"})
    [] e.e = "iodrop" -> If(s.up = "ok" /\ ~s.gone, {"S11.closed"})
    [] e.e = "parts" -> If(Upgrades(s) /\ ~Lost(s) /\ ~e.ok, {"S11.parts"})
    [] e.e = "updc" -> If(~e.ok, {"S11.parts"})
    [] e.e = "next" -> If(Upgrades(s), {"S11.served"})
    [] e.e = "bad" -> If(Upgrades(s), {"S11.raw"})
    [] e.e = "panic" -> {"ANY.panic"}
    [] e.e = "spin" -> {"S11.spin"}
    [] e.e = "conn" -> If(s.conn # "run", {"S11.twice"})
                       \cup If(e.r = "err" /\ Upgrades(s) /\ s.oh /\ ~Lost(s), {"S11.conn"})
    [] e.e = "q" ->
         LET stream == s.up = "ok" /\ ~s.gone
             live == e.ok /\ ~s.fault
         IN If(s.called /\ s.handle /\ s.up = "none" /\ (~s.sc.wants \/ s.decl \/ s.conn # "run" \/ (Due(s) /\ live)), {"S11.hang"})
            \cup If(Due(s) /\ live /\ s.conn = "run", {"S11.hang"})
            \cup If(stream /\ ~s.fault /\ e.c /\ ~s.ueof /\ (s.fed > s.sc.he + s.ured \/ s.eof), {"S11.stall"})
            \cup If(stream /\ live /\ (e.w > 0 \/ s.uout < s.uacc \/ e.s), {"S11.stall"})
    [] OTHER -> {}

Upd(s, e) ==
  CASE e.e = "fed" -> [s EXCEPT !.fed = @ + e.n]
    [] e.e = "eof" -> [s EXCEPT !.eof = TRUE]
    [] e.e = "rd" -> [s EXCEPT !.read = @ + e.n]
    [] e.e = "called" -> [s EXCEPT !.called = TRUE, !.handle = e.handle, !.bdone = @ \/ e.nobody]
    [] e.e = "bdone" -> [s EXCEPT !.bdone = TRUE]
    [] e.e = "bdrop" -> [s EXCEPT !.bdrop = TRUE]
    [] e.e = "oh" -> [s EXCEPT !.oh = TRUE]
    [] e.e = "decl" -> [s EXCEPT !.decl = TRUE]
    [] e.e = "up" -> [s EXCEPT !.up = e.r]
    [] e.e = "updrop" -> [s EXCEPT !.handle = FALSE]
    [] e.e \in {"ud", "updc"} -> [s EXCEPT !.gone = TRUE]
    [] e.e = "ur" -> [s EXCEPT !.ured = @ + e.n, !.ueof = @ \/ e.n = 0]
    [] e.e \in {"urerr"} -> [s EXCEPT !.ueof = TRUE]
    [] e.e = "uw" -> [s EXCEPT !.uacc = @ + e.n]
    [] e.e = "raw" -> [s EXCEPT !.uout = @ + e.n]
    [] e.e = "usreq" -> [s EXCEPT !.usd = TRUE]
    [] e.e = "sd" -> [s EXCEPT !.sd = TRUE]
    [] e.e = "conn" -> [s EXCEPT !.conn = e.r]
    [] e.e = "fault" -> [s EXCEPT !.fault = TRUE]
    [] OTHER -> s
===============================================================================
