----------------------------- MODULE H2HeadTrace -----------------------------
(* Judges recorded HTTP/2 heads: one state per record. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACES)
E == INSTANCE H2Head WITH case <- 0
SetOf(x) == {x[i] : i \in 1 .. Len(x)}
VARIABLE t
Init == t \in 1 .. Len(Runs)
Next == UNCHANGED t
Spec == Init /\ [][Next]_t
Bad(i) == LET r == Runs[i] IN E!Judge([r.case EXCEPT !.has = SetOf(@)], r.obs)
Emit == PrintT(<<"RES", ToJson([t |-> t, bad |-> Bad(t)])>>)
==============================================================================
