------------------------------- MODULE Upgrade -------------------------------
(***************************************************************************)
(* Design of an HTTP/1 upgrade on one connection, for either role, down to  *)
(* the unit of data: the incoming message (a head of two units, a body, the *)
(* stream's units behind it), read-ahead into the connection's buffer, the  *)
(* outgoing message waiting behind a blocked transport, the hand-over, and   *)
(* the user of the stream. Every step emits the event the harness would     *)
(* record; the observer UpgObs judges it. Env steps are what the peer, the   *)
(* transport and the application do; the rest is hyper's.                   *)
(***************************************************************************)
EXTENDS UpgObs

CONSTANTS Bodies,      \* possible lengths of the incoming body
          TailLen,        \* units behind the candidate message
          UserWrites, MaxCredit
HEAD == 2
VARIABLES m, s, bad
vars == <<m, s, bad>>

Emit(es) == LET F[i \in 0 .. Len(es)] == IF i = 0 THEN <<s, bad>> ELSE <<Upd(F[i - 1][1], es[i]), F[i - 1][2] \cup Check(F[i - 1][1], es[i])>>
            IN s' = F[Len(es)][1] /\ bad' = F[Len(es)][2]

Init ==
  \E role \in {"server", "client"}, mode \in {"upg", "plain", "nosd"}, w \in BOOLEAN, a \in BOOLEAN, b \in Bodies, bh \in {"read", "hold"} :
    /\ m = [role |-> role, bl |-> IF role = "client" THEN 0 ELSE b, bh |-> bh,
            rd |-> 0, cons |-> 0, ph |-> "head",
            resp |-> role = "client",        \* our message has been handed to the connection
            out |-> IF role = "client" THEN 2 ELSE 0, ohd |-> FALSE, blocked |-> FALSE,
            pend |-> "no",                   \* what the connection holds for the handle: no, wait, ok, err
            hd |-> "none",                   \* the handle: none, wait, over
            wq |-> 0, sdq |-> FALSE, cr |-> 0, buf |-> 0, left |-> 4, dirty |-> FALSE, ref |-> FALSE, done |-> FALSE, quiet |-> FALSE]
    \* a client only sees an upgrade as the response says it; there every agreed one is wanted
    /\ (role = "client" => w = a)
    /\ s = Init0([mode |-> mode, wants |-> w, agree |-> a, hc |-> TRUE, he |-> HEAD + (IF role = "client" THEN 0 ELSE b)])
    /\ bad = {}

Total == s.sc.he + TailLen
Alive == ~m.done
Quiet1 == m' = m
-----------------------------------------------------------------------------
\* what hyper does
Step(mm, es) == m' = [mm EXCEPT !.quiet = FALSE] /\ Emit(es)

\* a client reads once its request is on its way
WantsIn == Alive /\ (m.ph = "head" \/ (m.ph = "body" /\ m.bh = "read")) /\ m.rd < s.fed
SRead == /\ WantsIn /\ m.cons = m.rd
         /\ \E k \in 1 .. (s.fed - m.rd) : Step([m EXCEPT !.rd = @ + k], <<[e |-> "rd", n |-> k]>>)
SReadMore == /\ Alive /\ m.ph = "head" /\ m.cons < m.rd /\ m.rd < HEAD /\ m.rd < s.fed
             /\ \E k \in 1 .. (s.fed - m.rd) : Step([m EXCEPT !.rd = @ + k], <<[e |-> "rd", n |-> k]>>)
SHead == /\ Alive /\ m.ph = "head" /\ m.rd >= HEAD
         /\ Step([m EXCEPT !.ph = IF m.bl > 0 THEN "body" ELSE "done", !.cons = HEAD,
                           !.pend = IF s.sc.wants THEN "wait" ELSE "no",
                           !.hd = IF s.sc.wants THEN "wait" ELSE "over"],
                 <<[e |-> "called", handle |-> TRUE, nobody |-> m.bl = 0]>>
                 \o (IF s.sc.wants THEN <<>> ELSE <<[e |-> "up", r |-> "err"]>>)
                 \o (IF ~s.sc.agree /\ m.role = "client" THEN <<[e |-> "decl"]>> ELSE <<>>))
SBody == /\ Alive /\ m.ph = "body" /\ m.bh = "read" /\ m.cons < m.rd
         /\ LET mm == [m EXCEPT !.cons = @ + 1, !.ph = IF m.cons + 1 = HEAD + m.bl THEN "done" ELSE "body"]
            IN Step(mm, IF mm.ph = "done" THEN <<[e |-> "bdone"]>> ELSE <<>>)
\* a dropped body that is not all here: reading ends, and with it the upgrade
SDrop == /\ Alive /\ m.ph = "body" /\ m.bh = "drop"
         /\ Step([m EXCEPT !.ph = "closed", !.pend = IF @ = "wait" THEN "err" ELSE @], <<>>)
\* the response that declines drops the connection's half of the handle
SDecline == /\ Alive /\ m.resp /\ m.pend = "wait" /\ ~s.sc.agree
            /\ Step([m EXCEPT !.pend = "err"], <<>>)
SWrite == /\ Alive /\ m.out > 0 /\ ~m.blocked
          /\ \E k \in 1 .. m.out :
               Step([m EXCEPT !.out = @ - k, !.ohd = m.out = k],
                    IF m.out = k THEN <<[e |-> "oh"]>> \o (IF ~s.sc.agree /\ m.role = "server" THEN <<[e |-> "decl"]>> ELSE <<>>) ELSE <<>>)
\* the hand-over: all of the message in, all of ours out
SOver == /\ Alive /\ Upgrades(s) /\ m.pend = "wait" /\ m.ph = "done" /\ m.ohd
         /\ IF s.sc.mode = "upg" THEN Step([m EXCEPT !.done = TRUE, !.pend = "ok", !.buf = m.rd - m.cons], <<[e |-> "conn", r |-> "ok"]>>)
            ELSE Step([m EXCEPT !.done = TRUE, !.pend = "err"],
                      <<[e |-> "conn", r |-> "ok"]>> \o (IF s.sc.mode = "nosd" THEN <<[e |-> "parts", ok |-> TRUE]>> ELSE <<>>))
\* the handle's future sees it
SUp == /\ m.hd = "wait" /\ m.pend \in {"ok", "err"}
       /\ Step([m EXCEPT !.hd = "over"], <<[e |-> "up", r |-> m.pend]>>)
\* a connection that can do nothing more closes
SClose == /\ Alive /\ m.resp /\ m.out = 0 /\ ~m.blocked
          /\ m.ph = "closed" \/ (s.eof /\ ~Upgrades(s)) \/ (s.eof /\ s.fed < s.sc.he)
          /\ Step([m EXCEPT !.done = TRUE, !.pend = IF @ = "wait" THEN "err" ELSE @], <<[e |-> "sd"], [e |-> "conn", r |-> "ok"]>>)
Stream == m.hd = "over" /\ m.pend = "ok" /\ ~s.gone
SUW == /\ Stream /\ m.wq > 0 /\ ~m.blocked
       /\ \E k \in 1 .. m.wq : Step([m EXCEPT !.wq = @ - k], <<[e |-> "raw", n |-> k, ok |-> TRUE], [e |-> "uw", n |-> k]>>)
SUSd == /\ Stream /\ m.sdq /\ m.wq = 0 /\ ~m.blocked /\ Step([m EXCEPT !.sdq = FALSE], <<[e |-> "sd"]>>)
\* first what was read ahead, then the transport
SURead == /\ Stream /\ m.cr > 0
          /\ \/ /\ m.buf > 0
                /\ \E k \in 1 .. m.buf : Step([m EXCEPT !.buf = @ - k, !.cr = @ - 1], <<[e |-> "ur", n |-> k, ok |-> TRUE]>>)
             \/ /\ m.buf = 0 /\ m.rd < s.fed
                /\ \E k \in 1 .. (s.fed - m.rd) : Step([m EXCEPT !.rd = @ + k, !.cr = @ - 1], <<[e |-> "rd", n |-> k], [e |-> "ur", n |-> k, ok |-> TRUE]>>)
             \/ /\ m.buf = 0 /\ m.rd = s.fed /\ s.eof /\ ~s.ueof
                /\ Step([m EXCEPT !.cr = @ - 1], <<[e |-> "ur", n |-> 0, ok |-> TRUE]>>)

Internal == SRead \/ SReadMore \/ SHead \/ SBody \/ SDrop \/ SDecline \/ SWrite \/ SOver \/ SUp \/ SClose \/ SUW \/ SUSd \/ SURead
Quiet == /\ ~m.quiet /\ m' = [m EXCEPT !.quiet = TRUE]
         /\ Emit(<<[e |-> "q", ok |-> ~m.blocked, w |-> m.wq, s |-> m.sdq, c |-> m.cr > 0]>>)
-----------------------------------------------------------------------------
\* what the rest of the world does
EnvSteps == {<<"in", k>> : k \in 1 .. HEAD + 2} \cup {<<"eof", 0>>, <<"respond", 0>>, <<"block", 0>>, <<"unblock", 0>>, <<"rb", 0>>, <<"rbdrop", 0>>,
             <<"us", 0>>, <<"ud", 0>>, <<"udc", 0>>} \cup {<<"uw", k>> : k \in 1 .. 2} \cup {<<"ur", k>> : k \in 1 .. MaxCredit}
Env(st) ==
  LET a == st[1]
      k == st[2]
  IN CASE a = "in" -> s.fed + k <= Total /\ ~s.eof /\ Step(m, <<[e |-> "fed", n |-> k]>>)
       [] a = "eof" -> ~s.eof /\ Step(m, <<[e |-> "eof"]>>)
       [] a = "respond" -> s.called /\ ~m.resp /\ Alive /\ Step([m EXCEPT !.resp = TRUE, !.out = 2], <<>>)
       [] a = "block" -> ~m.blocked /\ Step([m EXCEPT !.blocked = TRUE], <<>>)
       [] a = "unblock" -> m.blocked /\ Step([m EXCEPT !.blocked = FALSE], <<>>)
       [] a = "rb" -> s.called /\ m.bh = "hold" /\ m.bl > 0 /\ Step([m EXCEPT !.bh = "read"], <<>>)
       [] a = "rbdrop" -> s.called /\ m.bh = "hold" /\ m.bl > 0 /\ ~s.bdone /\ Step([m EXCEPT !.bh = "drop"], <<[e |-> "bdrop"]>>)
       [] a = "uw" -> Stream /\ ~s.usd /\ m.left >= k /\ Step([m EXCEPT !.wq = @ + k, !.left = @ - k], <<>>)
       [] a = "us" -> Stream /\ ~s.usd /\ Step([m EXCEPT !.sdq = TRUE], <<[e |-> "usreq"]>>)
       [] a = "ur" -> Stream /\ m.cr = 0 /\ Step([m EXCEPT !.cr = k], <<>>)
       [] a = "ud" -> Stream /\ m.quiet /\ Step(m, <<[e |-> "ud"], [e |-> "iodrop"]>>)
       [] a = "udc" -> Stream /\ m.quiet /\ Step(m, <<[e |-> "updc", ok |-> TRUE], [e |-> "iodrop"]>>)
EnvAny == \E st \in EnvSteps : Env(st)
Next == Internal \/ (~ENABLED(Internal) /\ Quiet) \/ EnvAny
Spec == Init /\ [][Next]_vars
Safe == bad = {}
==============================================================================
