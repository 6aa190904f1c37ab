----------------------------- MODULE EncodeTrace -----------------------------
(* Judges recorded messages: one state per record. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACES)
E == INSTANCE Encode WITH Roles <- {}, Methods <- {}, V10s <- {}, RVs <- {}, Statuses <- {}, Cls <- {}, Tes <- {}, Bodies <- {},
                          Decls <- {}, Trss <- {}, Allows <- {}, case <- 0
SetOf(x) == {x[i] : i \in 1 .. Len(x)}
VARIABLE t
Init == t \in 1 .. Len(Runs)
Next == UNCHANGED t
Spec == Init /\ [][Next]_t
Bad(i) == LET r == Runs[i]
              c == [r.case EXCEPT !.decl = SetOf(@), !.trs = SetOf(@)]
              o == [r.obs EXCEPT !.trs = SetOf(@)]
          IN E!Judge(c, o)
Emit == PrintT(<<"RES", ToJson([t |-> t, bad |-> Bad(t)])>>)
==============================================================================
