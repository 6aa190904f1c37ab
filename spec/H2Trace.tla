------------------------------- MODULE H2Trace -------------------------------
(* Runs traces recorded of one HTTP/2 connection in the real code through the observers. *)
EXTENDS H2Obs, Json, IOUtils
P == INSTANCE H2PingObs
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, s, p, bad
vars == <<tr, l, s, p, bad>>
Init == tr \in 1 .. Len(Traces) /\ l = 1 /\ s = Init0(Traces[tr].sc) /\ p = P!Init0(Traces[tr].sc) /\ bad = {}
Step == /\ l <= Len(Traces[tr].ev)
        /\ LET e == Traces[tr].ev[l]
               c == Check(s, e) \cup P!Check(p, e)
           IN /\ bad' = bad \cup {<<x, l>> : x \in {y \in c : \A b \in bad : b[1] # y}}
              /\ s' = Upd(s, e)
              /\ p' = P!Upd(p, e)
        /\ l' = l + 1
        /\ tr' = tr
Report == l = Len(Traces[tr].ev) + 1 => PrintT(<<"RES", ToJson([t |-> tr, bad |-> bad])>>)
Spec == Init /\ [][Step]_vars
==============================================================================
