-------------------------------- MODULE Encode --------------------------------
(***************************************************************************)
(* How an outgoing HTTP/1 message is framed: from what the application     *)
(* supplies (head fields, body shape and how the body goes) to what the    *)
(* peer must see.  Ok(c, o) judges an observed message o for case c; the   *)
(* checker enumerates the cases (Gen) and, in a second run, judges what    *)
(* the code put on the wire for each of them (EncodeTrace).                *)
(*                                                                         *)
(* case c:                                                                 *)
(*   role  : "server" (a response, S09) or "client" (a request, C05)       *)
(*   m     : request method;  v10: the peer / the message is HTTP/1.0      *)
(*   rv    : version the application set ("1.1", "1.0", "2")               *)
(*   st    : response status;  cl, te : framing fields supplied (by id)    *)
(*   hint  : exact length the body announces, -1 if none                   *)
(*   empty : the body is at its end from the start                         *)
(*   n     : bytes the body produces; err: it then fails                   *)
(*   decl, trs : trailer names announced / produced, by id                 *)
(*   allow : the request said te: trailers                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Roles, Methods, V10s, RVs, Statuses, Cls, Tes, Bodies, Decls, Trss, Allows

\* content-length fields: the lengths named, {} if not a length
ClNames == {"none", "n5", "n3", "n7", "n0", "eq5", "diff", "bad", "plus"}
ClVal(id) == CASE id \in {"n5", "eq5"} -> 5 [] id = "n3" -> 3 [] id = "n7" -> 7 [] id = "n0" -> 0 [] OTHER -> -1
TeNames == {"none", "chunked", "gzip", "gzipchunked", "lines"}
\* body shapes: <<hint, empty, n, err>>
AllBodies == {
  [hint |-> -1, empty |-> TRUE, n |-> 0, err |-> FALSE], [hint |-> 0, empty |-> TRUE, n |-> 0, err |-> FALSE],
  [hint |-> -1, empty |-> FALSE, n |-> 0, err |-> FALSE], [hint |-> 0, empty |-> FALSE, n |-> 0, err |-> FALSE],
  [hint |-> -1, empty |-> FALSE, n |-> 5, err |-> FALSE], [hint |-> 5, empty |-> FALSE, n |-> 5, err |-> FALSE],
  [hint |-> 5, empty |-> FALSE, n |-> 3, err |-> FALSE], [hint |-> 5, empty |-> FALSE, n |-> 7, err |-> FALSE],
  [hint |-> -1, empty |-> FALSE, n |-> 3, err |-> TRUE], [hint |-> 5, empty |-> FALSE, n |-> 3, err |-> TRUE],
  [hint |-> -1, empty |-> FALSE, n |-> 0, err |-> TRUE] }
BPlain == {b \in AllBodies : ~b.err /\ b.n \in {0, 5}}
BUnknown == {b \in AllBodies : b.hint = -1 /\ ~b.err /\ b.n = 5}
\* trailer names: a, b ordinary; f1.. are on the list of fields that must not be trailers
Forbidden == {"authorization", "cache-control", "content-encoding", "content-length", "content-range", "content-type",
              "host", "max-forwards", "set-cookie", "trailer", "transfer-encoding", "te"}
TrSets == {{}, {"a"}, {"b"}, {"a", "b"}} \cup {{f} : f \in Forbidden} \cup {{"a", f} : f \in Forbidden}
TrFew == {{}, {"a"}, {"a", "b"}, {"b", "te"}}

Cases == {c \in [role : Roles, m : Methods, v10 : V10s, rv : RVs, st : Statuses, cl : Cls, te : Tes,
                 body : Bodies, decl : Decls, trs : Trss, allow : Allows] :
  \* a length the body announces agrees with a valid content-length of the application's (hyper
  \* trusts this and asserts it in debug builds)
  /\ c.role = "server" /\ c.cl \in {"n5", "n3", "n7", "n0", "eq5"} => c.body.hint \in {-1, ClVal(c.cl)} \/ c.body.empty \/ (c.m = "HEAD" /\ c.body.hint = 0)
  /\ c.role = "server" /\ c.cl = "diff" => c.body.hint = -1
  \* fields that make no sense on a message without body are the application's own fault
  /\ c.role = "server" /\ (c.st \in {101, 204} \/ (c.m = "CONNECT" /\ c.st = 200)) => c.cl = "none" /\ c.te = "none"
  /\ c.trs # {} => ~c.body.empty /\ ~c.body.err }

(************************** what must be on the wire *************************)
Tunnel(c) == c.role = "server" /\ (c.st = 101 \/ (c.m = "CONNECT" /\ c.st >= 200 /\ c.st < 300))
Interim(c) == c.role = "server" /\ c.st < 200 /\ c.st # 101
Bodiless(c) == c.role = "server" /\ (Tunnel(c) \/ c.m = "HEAD" \/ c.st \in {204, 304})
V10(c) == c.v10 \/ c.rv = "1.0"
NoBodyMethod(c) == c.role = "client" /\ c.m \in {"GET", "HEAD", "CONNECT"}

Fr(f, n) == [fr |-> f, n |-> n]
Refused == Fr("refused", 0)
\* the framings a message may be given
Framings(c) ==
  LET b == c.body
      \* what the body itself suggests
      own == IF b.empty THEN (IF c.role = "server" THEN {Fr("len", 0)}
                              ELSE IF NoBodyMethod(c) THEN {Fr("none", 0)} ELSE {Fr("none", 0), Fr("len", 0)})
             ELSE IF b.hint >= 0 THEN {Fr("len", b.hint)} \cup (IF c.role = "client" /\ b.hint = 0 THEN {Fr("none", 0)} ELSE {})
             ELSE IF c.role = "client" THEN (IF V10(c) \/ NoBodyMethod(c) THEN {Fr("none", 0)} ELSE {Fr("chunked", 0)})
             ELSE IF V10(c) THEN {Fr("close", 0)} ELSE {Fr("chunked", 0)}
      clv == ClVal(c.cl)
  IN
  IF c.role = "server"
  THEN IF Tunnel(c) THEN {Fr("up", 0)}
       ELSE IF Bodiless(c) THEN {Fr("none", 0)} \cup (IF c.cl # "none" THEN {Refused} ELSE {})
       ELSE IF c.cl # "none" /\ c.te # "none"
       THEN {Refused, Fr("chunked", 0)} \cup (IF clv >= 0 THEN {Fr("len", clv)} ELSE {}) \cup own
       ELSE IF c.te # "none" THEN IF V10(c) THEN own ELSE {Fr("chunked", 0)}
       ELSE IF c.cl = "none" THEN own
       ELSE IF clv < 0 THEN own \cup {Refused}
       ELSE IF b.empty THEN own \cup {Fr("len", clv)} ELSE {Fr("len", clv)}
  ELSE \* client
       IF c.te # "none" /\ ~V10(c) THEN {Fr("chunked", 0)} \cup (IF ~b.empty THEN {} ELSE IF clv >= 0 THEN {Fr("len", clv)} \cup (IF clv = 0 THEN own ELSE {}) ELSE own)
       ELSE IF clv >= 0 THEN {Fr("len", clv)} \cup (IF b.empty /\ clv = 0 THEN own ELSE {})
       ELSE own

\* the connection may be used for another exchange afterwards
Fin(c, f) ==
  CASE f.fr = "refused" -> "refused"
    [] f.fr \in {"none", "up"} -> "complete"
    [] f.fr = "len" -> IF c.body.n >= f.n THEN "complete" ELSE "aborted"
    [] OTHER -> IF c.body.err THEN "aborted" ELSE "complete"
Data(c, f) ==
  CASE f.fr \in {"refused", "none", "up"} -> 0
    [] f.fr = "len" -> IF c.body.n < f.n THEN c.body.n ELSE f.n
    [] OTHER -> c.body.n
Trailers(c, f) ==
  IF f.fr = "chunked" /\ ~c.body.err /\ (c.role = "client" \/ c.allow)
  THEN (c.trs \cap c.decl) \ Forbidden ELSE {}

\* observed message o: [bad, kind ("none": nothing written), st, fr, n, cl (length shown by a head without body, -1),
\*   data, dataok, fin ("open", "end"), trs, trok, next, shut, conn]
\*  next: a following exchange went through;  shut: the connection is over
P(c) == IF c.role = "server" THEN "S09" ELSE "C05"
If(b, x) == IF b THEN x ELSE {}
Judge(c, o) ==
  LET p == P(c)
      fs == {f \in Framings(c) : f.fr = o.fr /\ (f.fr # "len" \/ f.n = o.n)}
      f == CHOOSE x \in fs : TRUE
  IN
  IF o.bad THEN {p \o ".malformed", "S10.malformed"}
  ELSE IF o.panic THEN {"ANY.panic"}
  ELSE IF Interim(c)
  THEN If(o.fr # "refused" /\ (o.st # 500 \/ o.fr \notin {"len", "none"} \/ o.n # 0), {p \o ".interim"}) \cup If(o.next \/ ~o.shut, {p \o ".interimopen"})
  \* a body that fails or ends short may do so before anything was written
  ELSE IF o.fr = "refused" /\ (\E g \in Framings(c) : Fin(c, g) = "aborted") THEN If(o.next \/ ~o.shut, {p \o ".aborted"})
  ELSE IF fs = {} THEN {p \o ".framing"}
  ELSE If(c.role = "server" /\ o.fr # "refused" /\ o.st # c.st, {p \o ".status"})
       \cup If(o.data > Data(c, f) \/ (o.data # Data(c, f) /\ Fin(c, f) # "aborted") \/ ~o.dataok, {p \o ".data"})
       \cup If(Fin(c, f) = "complete" /\ o.fr \in {"len", "chunked"} /\ o.fin # "end", {p \o ".unterminated", "S10.unterminated"})
       \cup If(Fin(c, f) = "aborted" /\ o.fin = "end", {p \o ".terminated"})
       \cup If(Fin(c, f) \in {"aborted", "refused"} /\ (o.next \/ ~o.shut), {p \o ".aborted"})
       \* a request that could not be sent in full fails
       \cup If(c.role = "client" /\ Fin(c, f) = "aborted" /\ o.res # "err", {p \o ".succeeded"})
       \cup If(Fin(c, f) = "complete" /\ c.role = "client" /\ ~c.body.err /\ o.res # "ok", {p \o ".failed"})
       \* a complete self-delimited message does not cost the connection
       \cup If(Fin(c, f) = "complete" /\ o.fr \in {"len", "chunked", "none"} /\ ~V10(c) /\ c.body.n = Data(c, f) /\ ~c.body.err /\ ~o.next
               /\ ~(c.role = "client" /\ c.m = "CONNECT"), {p \o ".needless"})
       \cup If(o.fr = "close" /\ (~o.shut \/ o.next), {p \o ".closeopen"})
       \* a length shown for a body that is not sent is the body's
       \cup If(Bodiless(c) /\ ~Tunnel(c) /\ o.cl >= 0 /\ o.cl # (IF c.cl # "none" THEN ClVal(c.cl) ELSE c.body.hint) /\ ~(c.body.empty /\ o.cl = 0), {p \o ".shown"})
       \cup If(o.trs \ Trailers(c, f) # {}, {"S10.forbidden"})
       \cup If(Trailers(c, f) \ o.trs # {} /\ Fin(c, f) = "complete", {"S10.dropped"})
       \cup If(~o.trok, {"S10.value"})

\* sanity of the rule itself: at least one framing; a message that may be complete on a persistent
\* connection is self-delimiting; trailers only ride on chunked
Sane(c) == /\ Framings(c) # {}
           /\ \A f \in Framings(c) : /\ Trailers(c, f) # {} => f.fr = "chunked"
                                     /\ f.fr = "chunked" => ~V10(c) \/ (c.cl # "none" /\ c.te # "none")
                                     /\ (Bodiless(c) /\ f.fr # "refused") => Data(c, f) = 0
                                     /\ f.fr = "close" => c.role = "server"
           /\ \A f, g \in Framings(c) : (f.fr \in {"len", "close"} /\ g.fr \in {"len", "close"} /\ f.n # g.n) => c.cl # "none"

VARIABLE case
Init == case \in Cases
Next == UNCHANGED case
Spec == Init /\ [][Next]_case
Inv == Sane(case)
Emit == PrintT(<<"CASE", ToJson(case)>>)
==============================================================================
