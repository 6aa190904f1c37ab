-------------------------------- MODULE FfiObs --------------------------------
(***************************************************************************)
(* What is observable of the C API's executor (src/ffi/task.rs): tasks     *)
(* pushed, the callbacks run for them, wakers called, what polling returns.*)
(* Property F01. Events:                                                   *)
(*   push i, cb i (the task's code runs), out i v (its code yields v),     *)
(*   wake i (a waker of task i is called), tw i / tj i (a waker is being   *)
(*   called on another thread / that call is over), poll, ret i k v,       *)
(*   null, free, must i k (by now task i must have been returned with k)   *)
(* A task of kind "each" goes on after "buf"; sc.opaque: the callbacks of  *)
(* tasks are not visible (tasks of the library itself).                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

If(c, x) == IF c THEN x ELSE {}
Ids(sc) == {sc.ids[j] : j \in 1 .. Len(sc.ids)}

Init0(sc) ==
  [ sc |-> sc,
    st |-> [i \in Ids(sc) |-> "no"],         \* no, in, done, ret
    woken |-> [i \in Ids(sc) |-> FALSE],     \* was woken since its code last ran
    maybe |-> [i \in Ids(sc) |-> FALSE],     \* may have been
    run |-> [i \in Ids(sc) |-> FALSE],       \* its code ran since a threaded wake began
    val |-> [i \in Ids(sc) |-> "none"],
    each |-> [i \in Ids(sc) |-> 0],          \* chunks handed to a foreach callback
    poll |-> FALSE, freed |-> FALSE, pend |-> 0 ]

IsEach(s, i) == \E j \in 1 .. Len(s.sc.each) : s.sc.each[j] = i

Check(s, e) ==
  CASE e.e = "push" -> If(s.freed, {"F01.freed"})
    [] e.e = "cb" ->
         If(s.st[e.i] # "in", {"F01.afterdone"})
    \cup If(s.st[e.i] = "in" /\ ~s.woken[e.i] /\ ~s.maybe[e.i], {"F01.unwoken"})
    \cup If(~s.poll, {"F01.outside"})
    [] e.e = "ret" ->
         If(~s.poll, {"F01.outside"})
    \cup (IF e.i \notin Ids(s.sc) THEN {"F01.phantom"}
          ELSE If(s.sc.opaque /\ s.st[e.i] # "in", {"F01.twice"})
          \cup If(~s.sc.opaque /\ s.st[e.i] = "ret", {"F01.twice"})
          \cup If(~s.sc.opaque /\ s.st[e.i] \in {"no", "in"}, {"F01.phantom"})
          \cup If(~s.sc.opaque /\ s.st[e.i] = "done" /\ (e.k # s.val[e.i] \/ ~e.ok), {"F01.value"}))
    \cup If(~e.once, {"F01.value"})
    [] e.e = "data" -> If(~IsEach(s, e.i) \/ ~e.ok \/ s.st[e.i] # "in", {"F01.data"})
    [] e.e = "null" ->
         If(~s.poll, {"F01.outside"})
    \cup If(~s.sc.opaque /\ (\E i \in Ids(s.sc) : s.st[i] = "done"), {"F01.unreturned"})
    \cup If(~s.sc.opaque /\ (\E i \in Ids(s.sc) : s.st[i] = "in" /\ s.woken[i]), {"F01.lost"})
    [] e.e = "must" -> If(s.st[e.i] # "ret" \/ s.val[e.i] # e.k, {"F01.lost"})
    [] e.e = "pusherr" -> {"F01.push"}
    [] e.e = "panic" -> {"ANY.panic"}
    [] OTHER -> {}

Upd(s, e) ==
  CASE e.e = "push" -> [s EXCEPT !.st[e.i] = "in", !.woken[e.i] = TRUE]
    [] e.e = "cb" -> [s EXCEPT !.woken[e.i] = FALSE, !.run[e.i] = TRUE]
    [] e.e = "out" ->
         IF e.v = "buf" /\ IsEach(s, e.i) THEN s
         ELSE [s EXCEPT !.st[e.i] = "done", !.val[e.i] = e.v]
    [] e.e = "wake" -> [s EXCEPT !.woken[e.i] = TRUE]
    [] e.e = "tw" -> [s EXCEPT !.maybe[e.i] = TRUE, !.run[e.i] = FALSE, !.pend = @ + 1]
    [] e.e = "tj" -> [s EXCEPT !.woken[e.i] = @ \/ ~s.run[e.i], !.pend = @ - 1]
    [] e.e = "poll" -> [s EXCEPT !.poll = TRUE]
    [] e.e = "ret" -> IF e.i \in Ids(s.sc) THEN [s EXCEPT !.poll = FALSE, !.st[e.i] = "ret", !.val[e.i] = e.k] ELSE [s EXCEPT !.poll = FALSE]
    [] e.e = "null" -> [s EXCEPT !.poll = FALSE]
    [] e.e = "free" -> [s EXCEPT !.freed = TRUE]
    [] OTHER -> s
===============================================================================
