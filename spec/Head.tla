--------------------------------- MODULE Head ---------------------------------
(***************************************************************************)
(* What happens to the head of a message between the wire and the          *)
(* application (property S18).                                             *)
(*                                                                         *)
(* Receiving: the field lines of a head, each [n, f, v, k] (name, the case *)
(* it is written in, value, kind: "ok"; "badval"/"badname" a malformed     *)
(* line; "sp" a space before the colon; "fold" a folded value), become the *)
(* fields the application sees: names lower-cased, values without their    *)
(* surrounding white space, nothing added, dropped or reordered within a   *)
(* name. Sending: the application's fields become lines, the case chosen   *)
(* by the configuration; with preserved case a name taken over from a      *)
(* received message keeps the case it arrived in.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

If(c, x) == IF c THEN x ELSE {}
\* c : [role, lines, app, echo, cfg : [ign, fold, sp, title, keep, max], fill, ...]

Tolerated(c, l) ==
  CASE l.k = "ok" -> "take"
    [] l.k \in {"badval", "badname"} -> IF c.cfg.ign THEN "skip" ELSE "reject"
    [] l.k = "sp" -> IF c.role = "client" /\ c.cfg.sp THEN "take" ELSE IF c.cfg.ign THEN "skip" ELSE "reject"
    [] l.k = "fold" -> IF c.role = "client" /\ c.cfg.fold THEN "take" ELSE "reject"

Rejected(c) == (\E j \in 1 .. Len(c.lines) : Tolerated(c, c.lines[j]) = "reject") \/ Len(c.lines) + c.fill > c.cfg.max
Taken(c) == SelectSeq(c.lines, LAMBDA l : Tolerated(c, l) = "take")
Recv(c) == [j \in 1 .. Len(Taken(c)) |-> [n |-> Taken(c)[j].n, v |-> Taken(c)[j].v]]

\* fields as the application hands them over: [n, v, f], f the case on record
AppFields(c) == IF c.echo THEN [j \in 1 .. Len(Taken(c)) |-> [n |-> Taken(c)[j].n, v |-> Taken(c)[j].v,
                                                               f |-> IF c.cfg.keep THEN Taken(c)[j].f ELSE ""]]
                ELSE c.app
Sent(c) == [j \in 1 .. Len(AppFields(c)) |->
              LET a == AppFields(c)[j] IN
              [n |-> a.n, v |-> a.v, f |-> IF a.f # "" THEN a.f ELSE IF c.cfg.title THEN "title" ELSE "lower"]]

\* the fields of one name, in order
Of(fs, n) == SelectSeq(fs, LAMBDA x : x.n = n)
NamesOf(fs) == {fs[j].n : j \in 1 .. Len(fs)}
Same(a, b) == NamesOf(a) = NamesOf(b) /\ \A n \in NamesOf(a) : Of(a, n) = Of(b, n)

(* o : [panic, got: a head reached the application, recv, start: its start  *)
(*      line is right, hfill: filler fields that arrived, sent, wstart,     *)
(*      out: a head was written, bad]                                       *)
Judge(c, o) ==
  If(o.panic, {"ANY.panic"})
  \cup If(o.got /\ Rejected(c), {"S18.accepted"})
  \cup If(~o.got /\ ~Rejected(c), {"S18.refused"})
  \cup If(o.got /\ ~Rejected(c),
            If(~Same(o.recv, Recv(c)), {"S18.received"}) \cup If(~o.start, {"S18.start"}) \cup If(o.hfill # c.fill, {"S18.received"}))
  \cup If(o.bad, {"S18.malformed"})
  \cup If(~o.out /\ ~(c.echo /\ Rejected(c)) /\ ~(c.role = "server" /\ Rejected(c)), {"S18.unsent"})
  \cup If(o.out /\ ~Rejected(c), If(~Same(o.sent, Sent(c)), {"S18.sent"}) \cup If(~o.wstart, {"S18.wstart"}))

(****************** enumeration, and the two ends together *****************)
CONSTANTS Names, Forms, Values, Kinds, MaxLines
Lines == [n : Names, f : Forms, v : Values, k : Kinds]
Cfgs == {[ign |-> i, fold |-> fo, sp |-> s, title |-> t, keep |-> p, max |-> 100] :
           i \in BOOLEAN, fo \in BOOLEAN, s \in BOOLEAN, t \in BOOLEAN, p \in BOOLEAN}
VARIABLES c, printed
Init == /\ printed = FALSE
        /\ \E r \in {"server", "client"}, ls \in UNION {[1 .. k -> Lines] : k \in 0 .. MaxLines}, g \in Cfgs, e \in BOOLEAN :
             /\ (r = "server" => ~g.fold /\ ~g.sp)
             /\ c = [role |-> r, lines |-> ls, app |-> <<>>, echo |-> e, cfg |-> g, fill |-> 0]
Next == ~printed /\ printed' = TRUE /\ PrintT(<<"CASE", ToJson(c)>>) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, printed>>
\* forwarding: what is sent on, received again, is what was received; twice is as once
Round ==
  Rejected(c) \/
  LET back == [c EXCEPT !.lines = [j \in 1 .. Len(Sent([c EXCEPT !.echo = TRUE])) |->
                 LET x == Sent([c EXCEPT !.echo = TRUE])[j] IN [n |-> x.n, f |-> x.f, v |-> x.v, k |-> "ok"]]]
  IN /\ ~Rejected(back) /\ Same(Recv(back), Recv(c))
     /\ (c.cfg.keep => \A n \in NamesOf(Taken(c)) : [j \in 1 .. Len(Of(Taken(c), n)) |-> Of(Taken(c), n)[j].f] = [j \in 1 .. Len(Of(back.lines, n)) |-> Of(back.lines, n)[j].f])
===============================================================================
