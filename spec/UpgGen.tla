-------------------------------- MODULE UpgGen --------------------------------
(* Generates behaviours of Upgrade's environment for replay against the code. *)
(* Run with -simulate.                                                        *)
EXTENDS Upgrade, Json
CONSTANTS MaxBatches, MaxBatch
VARIABLES hist, open, sig
gvars == <<m, s, bad, hist, open, sig>>
Rare == {"eof", "block", "rbdrop", "us", "ud", "udc"}
GInit == Init /\ ((Upgrades(s) /\ s.sc.mode = "upg") \/ RandomElement(1 .. 8) = 1) /\ hist = <<>> /\ open = FALSE /\ sig = 0
GEnv(st) ==
  /\ m.quiet \/ (open /\ Len(hist[Len(hist)]) < MaxBatch)
  /\ Len(hist) < MaxBatches \/ open
  /\ st[1] \in Rare => RandomElement(1 .. 6) = 1
  /\ st[1] = "block" => Cardinality({b \in 1 .. Len(hist) : \E j \in 1 .. Len(hist[b]) : hist[b][j][1] = "block"}) < 2
  /\ Env(st)
  /\ hist' = IF open THEN [hist EXCEPT ![Len(hist)] = Append(@, <<st[1], st[2]>>)] ELSE Append(hist, <<<<st[1], st[2]>>>>)
  /\ open' = TRUE
GInt == /\ Internal \/ (~ENABLED(Internal) /\ Quiet)
        /\ open' = FALSE /\ UNCHANGED hist
Over == Len(hist) = MaxBatches /\ m.quiet
GDone == /\ Over \/ (m.quiet /\ RandomElement(1 .. 60) = 1) \/ (m.quiet /\ \A st \in {x \in EnvSteps : x[1] # "block"} : ~ENABLED(Env(st)))
         /\ sig < 2
         /\ PrintT(<<"SCEN", ToJson([role |-> m.role, bl |-> m.bl, mode |-> s.sc.mode, wants |-> s.sc.wants, agree |-> s.sc.agree, hist |-> hist])>>)
         /\ sig' = 2 /\ UNCHANGED <<m, s, bad, hist, open>>
\* another roll of the dice
GIdle == sig' = (IF sig = 0 THEN 1 ELSE 0) /\ m.quiet /\ UNCHANGED <<m, s, bad, hist, open>>
GNext == \/ sig < 2 /\ GInt /\ UNCHANGED sig
         \/ sig < 2 /\ (\E st \in EnvSteps : GEnv(st)) /\ UNCHANGED sig
         \/ sig < 2 /\ GIdle
         \/ GDone
GSpec == GInit /\ [][GNext]_gvars
==============================================================================
