---------------------------- MODULE H1ServerReplay ----------------------------
(***************************************************************************)
(* Conformance of recorded runs with the design: the environment batches   *)
(* of each run are applied to H1Server, whose own steps are hidden, and    *)
(* what the code showed at each quiescent point (obs) must be shown by     *)
(* some behaviour of the design.  For every run the furthest point reached *)
(* and the projections the design could show there are printed.            *)
(***************************************************************************)
EXTENDS H1Server, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, i, j
rvars == <<m, s, bad, tr, i, j>>

Proj == [called |-> s.called, got |-> s.got, rst |-> s.rst, heads |-> s.heads, ends |-> s.ends,
         c100 |-> s.c100, wrote |-> s.wrote, gone |-> s.bgone, sd |-> s.sd, res |-> s.res]
Fields == {"called", "got", "rst", "heads", "ends", "c100", "wrote", "gone", "sd", "res"}
AsSeq(f) == [x \in 1 .. Len(s.sc.reqs) |-> f[x - 1]]
Shown == [Proj EXCEPT !.got = AsSeq(@), !.rst = AsSeq(@), !.wrote = AsSeq(@), !.gone = AsSeq(@)]

RInit == /\ tr \in 1 .. Len(Runs)
         /\ s = Init0(MkSc(Runs[tr].kinds, Runs[tr].conf))
         /\ m = [deliv |-> 0, eofd |-> FALSE, pos |-> 0,
                 reading |-> "Init", writing |-> "Init", ka |-> "Idle",
                 svc |-> "none", resp |-> "none", left |-> 0, rel |-> 0, obody |-> FALSE,
                 want |-> FALSE, slot |-> 0, chan |-> "none", rx |-> "none", polled |-> FALSE,
                 out |-> <<>>, wok |-> TRUE, blocks |-> 0, dirty |-> FALSE,
                 closing |-> FALSE, error |-> FALSE, conn |-> "run", down |-> FALSE,
                 grace |-> FALSE, timer |-> -1, now |-> 0, quiet |-> FALSE]
         /\ bad = {} /\ i = 1 /\ j = 0

\* j = 0: the connection runs;  j > 0: the j-th stimulus of batch i - 1 is next
Hidden == j = 0 /\ Internal /\ UNCHANGED <<tr, i, j>>
AtRest == j = 0 /\ ~ENABLED(Internal)
Match == /\ AtRest
         /\ i <= Len(Runs[tr].obs)
         /\ Shown = Runs[tr].obs[i]
         /\ i' = i + 1
         /\ j' = IF i <= Len(Runs[tr].hist) THEN 1 ELSE 0
         /\ UNCHANGED <<m, s, bad, tr>>
PerReq == {"respond", "rb", "rbdrop", "release"}
Stim == /\ j > 0
        /\ LET b == Runs[tr].hist[i - 1] IN
           /\ IF (b[j][1] \in PerReq => b[j][3] = k) /\ ENABLED(Env(b[j])) THEN Env(b[j]) ELSE UNCHANGED <<m, s, bad>>
           /\ j' = IF j < Len(b) THEN j + 1 ELSE 0
        /\ UNCHANGED <<tr, i>>
RNext == Hidden \/ Match \/ Stim
RSpec == RInit /\ [][RNext]_rvars

\* reporting
Report == /\ (AtRest /\ i <= Len(Runs[tr].obs)) =>
               PrintT(<<"AT", ToJson([t |-> tr, i |-> i,
                                       diff |-> {f \in Fields : Shown[f] # Runs[tr].obs[i][f]}])>>)
          /\ (i = Len(Runs[tr].obs) + 1) => PrintT(<<"END", ToJson([t |-> tr])>>)
==============================================================================
