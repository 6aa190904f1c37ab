------------------------------ MODULE RBufTrace -------------------------------
(* Operation sequences run on the real ReadBuf, judged against RBuf. *)
EXTENDS RBuf, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
If(c, x) == IF c THEN x ELSE {}
VARIABLES tr, l, s, bad
tvars == <<tr, l, s, bad, b, u, len, data>>
TInit == /\ tr \in 1 .. Len(Traces) /\ l = 1 /\ bad = {}
         /\ s = Init0(Traces[tr].sc.cap, Traces[tr].sc.uninit)
         /\ b = 0 /\ u = 0 /\ len = 0 /\ data = 0
Judge(st, e) ==
  IF e.op = "panic" THEN {"ANY.panic"} ELSE
  LET r == Op(st, e.op, e.n)  z == r.st IN
       If(e.ok # r.ok, {"R01.refused"})
  \cup If(e.filled # Filled(z), {"R01.filled"})
  \cup If(e.nf # z.filled, {"R01.filled"})
  \cup If(e.ni # z.init /\ e.ni >= 0, {"R01.init"})
  \cup If(e.nc # z.cap, {"R01.capacity"})
  \cup If(e.rem # Rem(z), {"R01.remaining"})
  \cup If(r.ok /\ e.ret # r.ret, {"R01.slice"})
TStep == /\ l <= Len(Traces[tr].ev)
         /\ LET e == Traces[tr].ev[l]  c == Judge(s, e) IN
            /\ bad' = bad \cup {<<x, l>> : x \in {y \in c : \A q \in bad : q[1] # y}}
            /\ s' = IF e.op = "panic" THEN s ELSE Op(s, e.op, e.n).st
         /\ l' = l + 1 /\ UNCHANGED <<tr, b, u, len, data>>
Report == l = Len(Traces[tr].ev) + 1 => PrintT(<<"RES", ToJson([t |-> tr, bad |-> bad])>>)
TSpec == TInit /\ [][TStep]_tvars
===============================================================================
