----------------------------- MODULE H1ServerGen -----------------------------
(* Generates environment behaviours of H1Server for replay against the code:  *)
(* stimuli come in batches, each at quiescence.  Run with -simulate.          *)
EXTENDS H1Server, Json

CONSTANTS MaxBatches, MaxBatch
VARIABLES hist, open, sig
gvars == <<m, s, bad, hist, open, sig>>

\* the scenario's shape, for the record
Kinds == [i \in 1 .. Len(s.sc.reqs) |-> s.sc.reqs[i].kind]

\* stimuli that end or hold up a run are drawn less often
Rare == {"eof", "graceful", "block", "rbdrop"}

GInit == Init /\ hist = <<>> /\ open = FALSE /\ sig = <<>>

GEnv(st) ==
  /\ m.quiet \/ (open /\ Len(hist[Len(hist)]) < MaxBatch)
  /\ Len(hist) < MaxBatches \/ open
  /\ st[1] \in Rare => RandomElement(1 .. 8) = 1
  /\ st[1] \in {"tick", "rbdrop"} => ~open
  /\ Env(st)
  /\ hist' = IF open THEN [hist EXCEPT ![Len(hist)] = Append(@, <<st[1], st[2], s.called - 1>>)]
             ELSE Append(hist, <<<<st[1], st[2], s.called - 1>>>>)
  /\ open' = (st[1] \notin {"tick", "rbdrop"})   \* the reader's task notices the drop at its next poll
GInt == /\ Internal \/ (~ENABLED(Internal) /\ Quiet)
        /\ open' = FALSE /\ UNCHANGED hist
Over == Len(hist) = MaxBatches /\ m.quiet
GDone == /\ Over \/ (m.quiet /\ \A st \in EnvSteps : ~ENABLED(Env(st)))
         /\ sig = <<>>
         /\ PrintT(<<"SCEN", ToJson([kinds |-> Kinds, conf |-> <<s.sc.ka, s.sc.hc, s.sc.hrt>>, hist |-> hist])>>)
         /\ sig' = <<"done">> /\ UNCHANGED <<m, s, bad, hist, open>>
GNext == \/ sig = <<>> /\ GInt /\ UNCHANGED sig
         \/ sig = <<>> /\ (\E st \in EnvSteps : GEnv(st)) /\ UNCHANGED sig
         \/ GDone
GSpec == GInit /\ [][GNext]_gvars
==============================================================================
