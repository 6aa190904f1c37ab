------------------------------ MODULE HeadTrace ------------------------------
(* Judges recorded heads: one state per record. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACES)
H == INSTANCE Head WITH Names <- {}, Forms <- {}, Values <- {}, Kinds <- {}, MaxLines <- 0, c <- 0, printed <- FALSE
VARIABLE t
Init == t \in 1 .. Len(Runs)
Next == UNCHANGED t
Spec == Init /\ [][Next]_t
Emit == PrintT(<<"RES", ToJson([t |-> t, bad |-> H!Judge(Runs[t].case, Runs[t].obs)])>>)
==============================================================================
