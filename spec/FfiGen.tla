-------------------------------- MODULE FfiGen --------------------------------
(* Behaviours of FfiExec for replay against the code. Run with -simulate. *)
EXTENDS FfiExec, Json
CONSTANT MaxHist
VARIABLE fin
gvars == <<m, s, bad, hist, fin>>
GInit == Init /\ fin = FALSE
Stop == Len(hist) >= MaxHist /\ m.pc = "idle"
GNext == \/ /\ ~Stop /\ ~fin
            /\ Next /\ UNCHANGED fin
         \/ /\ Stop /\ ~fin
            /\ PrintT(<<"SCEN", ToJson([h |-> hist])>>)
            /\ fin' = TRUE /\ UNCHANGED vars
GSpec == GInit /\ [][GNext]_gvars
===============================================================================
