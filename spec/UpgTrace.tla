------------------------------- MODULE UpgTrace -------------------------------
(* Runs traces recorded around an upgrade in the real code through the observer. *)
EXTENDS UpgObs, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, s, bad
vars == <<tr, l, s, bad>>
Init == tr \in 1 .. Len(Traces) /\ l = 1 /\ s = Init0(Traces[tr].sc) /\ bad = {}
Step == /\ l <= Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[l]
               c == Check(s, e)
           IN /\ bad' = bad \cup {<<x, l>> : x \in {y \in c : \A b \in bad : b[1] # y}}
              /\ s' = Upd(s, e)
        /\ l' = l + 1
        /\ tr' = tr
Report == l = Len(Traces[tr].ev) + 1 => PrintT(<<"RES", ToJson([t |-> tr, bad |-> bad])>>)
Spec == Init /\ [][Step]_vars
==============================================================================
