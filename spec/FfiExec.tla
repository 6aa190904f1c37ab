------------------------------- MODULE FfiExec -------------------------------
(***************************************************************************)
(* Design of the executor: a FuturesUnordered `driver` with its ready      *)
(* queue, the spawn queue, and the is_woken flag that tells a poll that    *)
(* something woke while the driver was being polled. Task code is          *)
(* nondeterministic: it may keep a waker, wake itself, wake another task,  *)
(* push a further task, and then stay pending or complete.                 *)
(***************************************************************************)
EXTENDS FfiObs, TLC

CONSTANTS N, MaxRuns,        \* tasks; runs of one task's code
          Yield,             \* the driver may give up its turn with tasks ready
          Effects            \* effects of task code that are explored

VARIABLES m, s, bad, hist
vars == <<m, s, bad, hist>>
T == 0 .. N - 1

RECURSIVE Feed(_, _, _)
Feed(st, es, b) == IF es = <<>> THEN <<st, b>>
                   ELSE Feed(Upd(st, Head(es)), Tail(es), b \cup Check(st, Head(es)))
Emit(es) == LET r == Feed(s, es, bad) IN s' = r[1] /\ bad' = r[2]

Sc == [ids |-> [j \in 1 .. N |-> j - 1], each |-> <<>>, opaque |-> FALSE]

Init == /\ m = [pc |-> "idle", drv |-> {}, rq |-> <<>>, sq |-> <<>>, isw |-> FALSE, cur |-> -1,
                wk |-> [t \in T |-> 0], runs |-> [t \in T |-> 0], polled |-> FALSE, over |-> FALSE]
        /\ s = Init0(Sc) /\ bad = {} /\ hist = <<>>

\* task t becomes ready: once in the queue; the driver's own waker is called
Ready(mm, t) == IF t \in mm.drv
                THEN [mm EXCEPT !.rq = IF \E j \in 1 .. Len(@) : @[j] = t THEN @ ELSE Append(@, t), !.isw = TRUE]
                ELSE mm
Drain(mm) == [mm EXCEPT !.drv = @ \cup {mm.sq[j] : j \in 1 .. Len(mm.sq)}, !.rq = @ \o mm.sq, !.sq = <<>>]

Push(t) == /\ m.pc = "idle" /\ s.st[t] = "no"
           /\ m' = [m EXCEPT !.sq = Append(@, t)]
           /\ Emit(<<[e |-> "push", i |-> t]>>) /\ hist' = Append(hist, <<"push", t>>)
Wake(t) == /\ m.pc = "idle" /\ m.wk[t] > 0
           /\ m' = Ready([m EXCEPT !.wk[t] = @ - 1], t)
           /\ Emit(<<[e |-> "wake", i |-> t]>>) /\ hist' = Append(hist, <<"wake", t>>)
Poll == /\ m.pc = "idle"
        /\ m' = [Drain(m) EXCEPT !.pc = "drive", !.polled = FALSE]
        /\ Emit(<<[e |-> "poll"]>>) /\ hist' = Append(hist, <<"poll", 0>>)

Null == /\ m' = [m EXCEPT !.pc = "idle"]
        /\ Emit(<<[e |-> "null"]>>) /\ UNCHANGED hist
Drive == /\ m.pc = "drive"
         /\ IF m.drv = {} THEN Null
            ELSE /\ m' = IF m.rq = <<>> THEN [m EXCEPT !.pc = "after"]
                         ELSE [m EXCEPT !.pc = "run", !.cur = Head(m.rq), !.rq = Tail(@)]
                 /\ UNCHANGED <<s, bad, hist>>
GiveUp == /\ Yield /\ m.pc = "drive" /\ m.polled /\ m.rq # <<>>
          /\ m' = [m EXCEPT !.pc = "after", !.isw = TRUE]
          /\ UNCHANGED <<s, bad, hist>>
After == /\ m.pc = "after"
         /\ IF m.sq # <<>> THEN m' = [Drain(m) EXCEPT !.pc = "drive"] /\ UNCHANGED <<s, bad, hist>>
            ELSE IF m.isw THEN m' = [m EXCEPT !.isw = FALSE, !.pc = "drive"] /\ UNCHANGED <<s, bad, hist>>
            ELSE Null

\* the code of the current task runs once: effects f, outcome o
Run(f, o) ==
  LET t == m.cur
      m0 == [m EXCEPT !.polled = TRUE, !.runs[t] = @ + 1, !.pc = "drive", !.cur = -1]
      others == {u \in T : m.wk[u] > 0 /\ u # t}
      fresh == {u \in T : s.st[u] = "no"} IN
  /\ m.pc = "run"
  /\ o = "p" => m.runs[t] + 1 < MaxRuns
  /\ \E u \in T :
       LET spec == CASE f = "none" -> <<m0, <<>>, <<>>>>
                     [] f = "keep" -> <<[m0 EXCEPT !.wk[t] = @ + 1], <<>>, <<<<"keep", t>>>>>>
                     [] f = "self" -> <<Ready(m0, t), <<[e |-> "wake", i |-> t]>>, <<<<"self", t>>>>>>
                     [] f = "keepself" -> <<Ready([m0 EXCEPT !.wk[t] = @ + 1], t), <<[e |-> "wake", i |-> t]>>, <<<<"keep", t>>, <<"self", t>>>>>>
                     [] f = "wake" -> <<Ready([m0 EXCEPT !.wk[u] = @ - 1, !.wk[t] = @ + 1], u), <<[e |-> "wake", i |-> u]>>, <<<<"keep", t>>, <<"wake", u>>>>>>
                     [] f = "spawn" -> <<[m0 EXCEPT !.sq = Append(@, u), !.wk[t] = @ + 1], <<[e |-> "push", i |-> u]>>, <<<<"keep", t>>, <<"spawn", u>>>>>>
       IN /\ IF f = "wake" THEN u \in others ELSE IF f = "spawn" THEN u \in fresh ELSE u = t
          /\ hist' = Append(hist, <<"run", t, spec[3], o>>)
          /\ IF o = "p"
             THEN /\ m' = spec[1]
                  /\ Emit(<<[e |-> "cb", i |-> t]>> \o spec[2])
             ELSE /\ m' = [spec[1] EXCEPT !.drv = @ \ {t}, !.rq = SelectSeq(@, LAMBDA x : x # t), !.pc = "idle"]
                  /\ Emit(<<[e |-> "cb", i |-> t]>> \o spec[2] \o
                          <<[e |-> "out", i |-> t, v |-> o], [e |-> "ret", i |-> t, k |-> o, ok |-> TRUE, once |-> TRUE]>>)

EnvNext == (\E t \in T : Push(t) \/ Wake(t)) \/ Poll
IntNext == Drive \/ GiveUp \/ After \/ (\E f \in Effects, o \in {"p", "buf"} : Run(f, o))
Next == EnvNext \/ IntNext
Spec == Init /\ [][Next]_vars
Safe == bad = {}
\* the history is for generation only
View == <<m, s, bad>>
===============================================================================
