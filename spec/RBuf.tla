--------------------------------- MODULE RBuf ---------------------------------
(***************************************************************************)
(* The read buffer of hyper::rt and its cursor (src/rt/io.rs), property    *)
(* R01, as a deterministic machine: the state is the memory, the number of *)
(* filled and of initialized bytes; Op(st, op, n) gives the next state,    *)
(* whether the operation succeeds and what it returns. Bytes are numbers:  *)
(* 0, 1..26 for put and raw data ('a'..), 100+i for scribbles ('0' + i),   *)
(* -1 for memory never initialized.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Init0(cap, uninit) ==
  [mem |-> [j \in 1 .. cap |-> IF uninit THEN -1 ELSE 238], cap |-> cap, filled |-> 0,
   init |-> IF uninit THEN 0 ELSE cap, nx |-> 1]

Rem(st) == st.cap - st.filled
\* the next data byte after n bytes of data (the driver's counter)
Next1(st, n) == IF st.nx + n > 16 THEN 1 ELSE st.nx + n
Write(st, at, n, F(_)) == [st EXCEPT !.mem = [j \in 1 .. st.cap |-> IF j > at /\ j <= at + n THEN F(j - at - 1) ELSE st.mem[j]]]
MaxI(a, b) == IF a > b THEN a ELSE b

\* zeroes what is not initialized up to `end`
Zero(st, end) == IF st.init >= end THEN st
                 ELSE [Write(st, st.init, end - st.init, LAMBDA j : 0) EXCEPT !.init = end]
Slice(st, n) == SubSeq(st.mem, st.filled + 1, st.filled + n)

\* -> [st, ok, ret]
Op(st, op, n) ==
  LET rem == Rem(st)  st1 == [st EXCEPT !.nx = Next1(st, n)] IN
  CASE op = "put" ->
         IF n > rem THEN [st |-> st1, ok |-> FALSE, ret |-> <<>>]
         ELSE LET w == Write(st, st.filled, n, LAMBDA j : st.nx + j) IN
              [st |-> [w EXCEPT !.filled = @ + n, !.init = MaxI(@, st.filled + n), !.nx = Next1(st, n)], ok |-> TRUE, ret |-> <<>>]
    [] op = "raw" ->
         LET k == IF n < rem THEN n ELSE rem
             w == Write(st, st.filled, k, LAMBDA j : st.nx + j) IN
         IF n > rem THEN [st |-> [w EXCEPT !.nx = Next1(st, n)], ok |-> TRUE, ret |-> <<rem>>]
         ELSE [st |-> [w EXCEPT !.filled = @ + n, !.init = MaxI(@, st.filled + n), !.nx = Next1(st, n)], ok |-> TRUE, ret |-> <<rem>>]
    [] op = "initall" -> LET z == Zero(st, st.cap) IN [st |-> z, ok |-> TRUE, ret |-> Slice(z, rem)]
    [] op = "initto" ->
         IF n > rem THEN [st |-> st, ok |-> FALSE, ret |-> <<>>]
         ELSE LET z == Zero(st, st.filled + n) IN [st |-> z, ok |-> TRUE, ret |-> Slice(z, n)]
    [] op = "dirty" ->
         IF n > rem THEN [st |-> st, ok |-> FALSE, ret |-> <<>>]
         ELSE LET z == Zero(st, st.filled + n) IN
              [st |-> Write(z, st.filled, n, LAMBDA j : 100 + j), ok |-> TRUE, ret |-> <<>>]
    [] op = "rem" -> [st |-> st, ok |-> TRUE, ret |-> <<>>]

Filled(st) == SubSeq(st.mem, 1, st.filled)
Ok(st) == /\ st.filled <= st.init /\ st.init <= st.cap /\ Len(st.mem) = st.cap
          /\ \A j \in 1 .. st.filled : st.mem[j] # -1

(******************************** design *********************************)
CONSTANTS Caps, MaxOps
Ops == {"put", "raw", "initall", "initto", "dirty", "rem"}
VARIABLES b, u, len, data
vars == <<b, u, len, data>>
\* `data`: what was put or advanced over, in order
Init == \E c \in Caps, x \in BOOLEAN : b = Init0(c, x) /\ u = x /\ len = 0 /\ data = <<>>
Step(op, n) ==
  /\ len < MaxOps /\ len' = len + 1 /\ u' = u
  /\ LET r == Op(b, op, n) IN
     /\ b' = r.st
     \* advancing uninitialized bytes is outside the contract; "raw" writes them first
     /\ data' = data \o SubSeq(r.st.mem, b.filled + 1, r.st.filled)
     /\ Assert(r.ok \/ (r.st.mem = b.mem /\ r.st.filled = b.filled /\ r.st.init = b.init), "a refused operation changes nothing")
Nexts == \E op \in Ops, n \in 0 .. 6 : n <= b.cap + 1 /\ Step(op, n)
Spec == Init /\ [][Nexts]_vars
Inv == Ok(b) /\ data = Filled(b)
===============================================================================
