-------------------------------- MODULE H2Head --------------------------------
(***************************************************************************)
(* What an application may put into the head (and the trailers) of a        *)
(* message, and what of it may travel over HTTP/2 (X04).                    *)
(*                                                                         *)
(* case c: role "server" (a response) / "client" (a request); m, st;        *)
(*   conn : the connection lines, by id;  te : the te lines, by id          *)
(*   has  : the other fields present; dup: each of them given twice         *)
(*   cl   : content-length supplied; body: shape of the body                *)
(*   trl  : trailers: none, plain, or with a field that must not travel     *)
(* observed o: n : how often each field arrived, in the order and with the   *)
(*   values given (otherwise counted in `wrong`);  te, cl : values seen;     *)
(*   other : fields never supplied; trl : what became of the trailers        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Ordinary == {"a", "b", "c"}
Hop == {"keep-alive", "proxy-connection", "transfer-encoding", "upgrade"}
\* connection lines: the names each nominates for sure, and those it may
ConnIds == {"close", "hop", "a", "ab", "upper", "spaces", "empties", "te", "length", "obs", "junk"}
Nom(id) == CASE id \in {"a", "upper", "empties", "junk"} -> {"a"} [] id \in {"ab", "spaces"} -> {"a", "b"}
             [] id = "te" -> {"te"} [] id = "length" -> {"content-length", "a"} [] OTHER -> {}
May(id) == IF id = "obs" THEN {"a"} ELSE Nom(id)
TeIds == {"none", "trailers", "gzip", "list", "case", "tr,gz", "gz,tr", "tr,tr", "empty"}
ClIds == {"none", "right", "zero"}
BodyIds == {"empty", "exact", "unknown", "zero"}
Hint(b) == CASE b \in {"empty", "zero"} -> 0 [] b = "exact" -> 3 [] OTHER -> -1
Lines == {<<>>} \cup {<<i>> : i \in ConnIds} \cup {<<i, j>> : i, j \in ConnIds}
Sets == {{}, {"c"}, {"a", "b"}, Ordinary, Hop, Ordinary \cup Hop}
Cases == {c \in [role : {"client", "server"}, m : {"GET", "POST"}, st : {200, 404}, conn : Lines, te : TeIds, has : Sets, dup : BOOLEAN,
                 cl : ClIds, body : BodyIds, trl : {"none", "plain", "hop", "nominated"}] :
  /\ c.role = "server" => c.m = "GET"
  /\ c.role = "client" => c.st = 200
  /\ c.m = "GET" /\ c.role = "client" => c.body \in {"empty", "exact"}
  /\ Len(c.conn) = 2 => c.te = "none" /\ c.cl = "none" /\ c.body = "exact" /\ c.trl = "none" /\ c.has # {}
  /\ c.te # "none" => c.cl = "none" /\ c.body = "exact" /\ c.trl = "none" /\ ~c.dup
  /\ c.cl # "none" \/ c.body # "exact" => c.has \in {{}, Ordinary \cup Hop} /\ ~c.dup
  /\ c.cl = "right" => c.body \in {"exact", "unknown"}
  /\ c.cl = "zero" => c.body \in {"empty", "zero"}
  /\ c.trl # "none" => c.body = "unknown" /\ c.st = 200 /\ c.cl = "none" /\ Len(c.conn) <= 1
  /\ c.st = 404 => c.body = "exact" /\ Len(c.conn) <= 1 /\ c.te = "none" }

Nominated(c) == UNION {Nom(c.conn[i]) : i \in DOMAIN c.conn}
MayGo(c) == UNION {May(c.conn[i]) : i \in DOMAIN c.conn}
Given(c, f) == IF f \in c.has THEN (IF c.dup THEN 2 ELSE 1) ELSE 0
ClVal(c) == CASE c.cl = "right" -> 3 [] c.cl = "zero" -> 0 [] OTHER -> -1

Judge(c, o) ==
  LET nom == Nominated(c)
  IN IF ~o.sent THEN {"X04.unsent"}
     ELSE UNION {
       IF o.n["connection"] > 0 \/ \E f \in Hop : o.n[f] > 0 THEN {"X04.hop"} ELSE {},
       IF \E f \in Ordinary \cap nom : o.n[f] > 0 THEN {"X04.nominated"} ELSE {},
       IF \E f \in Ordinary \ MayGo(c) : o.n[f] # Given(c, f) THEN {"X04.lost"} ELSE {},
       IF o.wrong # 0 \/ \E f \in Ordinary : o.n[f] > Given(c, f) THEN {"X04.changed"} ELSE {},
       IF o.other # 0 THEN {"X04.added"} ELSE {},
       \* te
       IF c.role = "client" /\ \E i \in DOMAIN o.te : o.te[i] \notin {"trailers"} /\ ~(c.te = "case" /\ o.te[i] = "case") THEN {"X04.te"} ELSE {},
       IF c.role = "client" /\ c.te = "trailers" /\ "te" \notin nom /\ o.te # <<"trailers">> THEN {"X04.lost"} ELSE {},
       IF "te" \in nom /\ o.te # <<>> THEN {"X04.nominated"} ELSE {},
       \* content-length
       IF Len(o.cl) > 1 THEN {"X04.length"} ELSE {},
       IF ClVal(c) >= 0 /\ "content-length" \notin nom /\ o.cl # <<ClVal(c)>> THEN {"X04.length"} ELSE {},
       IF (ClVal(c) < 0 \/ "content-length" \in nom) /\ o.cl # <<>> /\ o.cl # <<Hint(c.body)>> THEN {"X04.length"} ELSE {},
       \* trailers: those that may travel do; others are left out, or the stream fails
       IF c.trl = "plain" /\ o.trl # "plain" THEN {"X04.trailers"} ELSE {},
       IF c.trl \in {"hop", "nominated"} /\ o.trl \notin (IF c.trl = "hop" THEN {"plain", "reset"} ELSE {"plain", "all", "reset"}) THEN {"X04.trailers"} ELSE {},
       IF c.trl = "none" /\ o.trl # "none" THEN {"X04.trailers"} ELSE {} }

VARIABLE case
Init == case \in Cases
Next == UNCHANGED case
Spec == Init /\ [][Next]_case
\* the specification agrees with itself: what ought to be sent is never judged wrong
Ideal(c) ==
  LET nom == Nominated(c)
  IN [sent |-> TRUE, wrong |-> 0, other |-> 0,
      n |-> [f \in Ordinary \cup Hop \cup {"connection"} |-> IF f \in Ordinary /\ f \notin nom THEN Given(c, f) ELSE 0],
      te |-> IF c.role = "client" /\ c.te \in {"trailers", "tr,tr"} /\ "te" \notin nom THEN (IF c.te = "trailers" THEN <<"trailers">> ELSE <<"trailers", "trailers">>) ELSE <<>>,
      cl |-> IF ClVal(c) >= 0 /\ "content-length" \notin nom THEN <<ClVal(c)>> ELSE IF Hint(c.body) > 0 THEN <<Hint(c.body)>> ELSE <<>>,
      trl |-> IF c.trl = "none" THEN "none" ELSE "plain"]
Inv == Judge(case, Ideal(case)) = {}
Emit == PrintT(<<"CASE", ToJson(case)>>)
==============================================================================
