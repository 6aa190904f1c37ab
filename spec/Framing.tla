------------------------------- MODULE Framing -------------------------------
(***************************************************************************)
(* Message framing of HTTP/1: which rule delimits the body of a message    *)
(* with a given head.  Header lines are abstract: a content-length line is *)
(* its list of values (-1: not a length), a transfer-encoding line its     *)
(* list of codings, "" an empty list element.  Verdicts gives the set of   *)
(* acceptable answers; it has several members only where the standard      *)
(* leaves the choice to the recipient.  The checker enumerates all heads   *)
(* with up to MaxLines framing lines and prints each with its verdicts;    *)
(* the harness puts the same head to the code.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLines, Roles, Methods, Statuses, Versions, Ids

CL(id, els) == [id |-> id, t |-> "cl", n |-> els, c |-> <<>>]
TE(id, els) == [id |-> id, t |-> "te", n |-> <<>>, c |-> els]

AllLines == {
  CL("cl3", <<3>>), CL("cl0", <<0>>), CL("cl5", <<5>>), CL("cl03", <<3>>), CL("cl3ows", <<3>>),
  CL("cl3,3", <<3, 3>>), CL("cl3,5", <<3, 5>>), CL("cl+3", <<-1>>), CL("cl-3", <<-1>>), CL("clempty", <<-1>>),
  CL("clhex", <<-1>>), CL("cl3;", <<-1>>), CL("cl3 5", <<-1>>), CL("cl3,", <<3, -1>>), CL("clmax", <<-1>>), CL("clover", <<-1>>),
  CL("clwrap3", <<-1>>), CL("clvt3", <<-1>>),
  TE("chunked", <<"chunked">>), TE("Chunked", <<"chunked">>), TE("chunkedows", <<"chunked">>),
  TE("gzip", <<"gzip">>), TE("gzip,chunked", <<"gzip", "chunked">>), TE("chunked,gzip", <<"chunked", "gzip">>),
  TE("chunked,", <<"chunked", "">>), TE("chunkedx", <<"chunkedx">>), TE("xchunked", <<"xchunked">>),
  TE("identity", <<"identity">>), TE("teempty", <<"">>), TE("chunked;q", <<"chunked;q">>), TE("chunk", <<"chunk">>),
  TE("chunked,chunked", <<"chunked", "chunked">>), TE("vtchunked", <<"bad">>) }

Lines == {l \in AllLines : Ids = {} \/ l.id \in Ids}

Heads == UNION {[1 .. n -> Lines] : n \in 0 .. MaxLines}

RECURSIVE Cat(_, _)
Cat(ls, t) == IF ls = <<>> THEN <<>>
              ELSE LET l == Head(ls) IN
                   (IF l.t # t THEN <<>> ELSE IF t = "cl" THEN l.n ELSE l.c) \o Cat(Tail(ls), t)
Has(ls, t) == \E i \in 1 .. Len(ls) : ls[i].t = t
Codings(ls) == SelectSeq(Cat(ls, "te"), LAMBDA x : x # "")
Lengths(ls) == Cat(ls, "cl")

ClOk(ls) == LET n == Lengths(ls) IN n # <<>> /\ \A i \in 1 .. Len(n) : n[i] >= 0 /\ n[i] = n[1]
\* several values on one line: the standard lets the recipient reject or merge
ClList(ls) == \E i \in 1 .. Len(ls) : ls[i].t = "cl" /\ Len(ls[i].n) > 1
\* a list that ends in an empty element, or names chunked twice
TeOdd(ls) == LET c == Cat(ls, "te") IN
             \/ \E i \in 1 .. Len(c) : c[i] = ""
             \/ \E i \in 1 .. Len(c) - 1 : c[i] = "chunked"
FinalChunked(ls) == LET c == Codings(ls) IN c # <<>> /\ c[Len(c)] = "chunked"

Reject == [v |-> "reject", n |-> 0]
None == [v |-> "none", n |-> 0]
Chunked == [v |-> "chunked", n |-> 0]
CloseD == [v |-> "close", n |-> 0]
Upgrade == [v |-> "upgrade", n |-> 0]
LenOf(n) == [v |-> "len", n |-> n]

\* a server reading a request (S01)
Server(c) ==
  LET ls == c.lines IN
  IF Has(ls, "te")
  THEN IF c.v10 \/ ~FinalChunked(ls) THEN {Reject}
       ELSE {Chunked} \cup (IF TeOdd(ls) \/ (Has(ls, "cl") /\ (~ClOk(ls) \/ ClList(ls))) THEN {Reject} ELSE {})
  ELSE IF Has(ls, "cl")
  THEN IF ~ClOk(ls) THEN {Reject}
       ELSE {LenOf(Lengths(ls)[1])} \cup (IF ClList(ls) THEN {Reject} ELSE {})
  ELSE {None}

\* a client reading a response (C02)
Client(c) ==
  LET ls == c.lines IN
  IF c.st = 101 \/ (c.m = "CONNECT" /\ c.st >= 200 /\ c.st < 300 /\ c.st # 204) THEN {Upgrade}
  ELSE IF c.m = "CONNECT" /\ c.st = 204 THEN {Upgrade, None}
  ELSE IF c.st \in {204, 304} \/ c.m = "HEAD" THEN {None}
  ELSE IF Has(ls, "te")
  THEN IF c.v10 THEN {Reject}
       ELSE IF TeOdd(ls) THEN {Chunked, CloseD, Reject}
       ELSE IF FinalChunked(ls) THEN {Chunked} \cup (IF Has(ls, "cl") /\ ~ClOk(ls) THEN {Reject} ELSE {})
       ELSE {CloseD}
  ELSE IF Has(ls, "cl")
  THEN IF ClOk(ls) THEN {LenOf(Lengths(ls)[1])} ELSE {Reject}
  ELSE {CloseD}

Verdicts(c) == IF c.role = "server" THEN Server(c) ELSE Client(c)

\* both framings were given and chunked was chosen: the connection is not reused
NoReuse(c) == c.role = "server" /\ Has(c.lines, "te") /\ Has(c.lines, "cl")

VARIABLE case
Init == case \in [role : Roles, m : Methods, st : Statuses, v10 : Versions, lines : Heads]
Next == UNCHANGED case
Spec == Init /\ [][Next]_case

\* the rule is a function of the head: an unambiguous verdict unless the standard leaves the choice,
\* never both "reject" and nothing else for a head without any framing line
Sane == /\ Verdicts(case) # {}
        /\ (case.lines = <<>> => Reject \notin Verdicts(case))
        /\ (Chunked \in Verdicts(case) => case.lines # <<>>)
        \* order independence
        /\ \A p \in {q \in [1 .. Len(case.lines) -> 1 .. Len(case.lines)] : \A i, j \in DOMAIN q : i # j => q[i] # q[j]} :
             Len(case.lines) <= 2 /\ ~(Has(case.lines, "te") /\ Cardinality({i \in 1 .. Len(case.lines) : case.lines[i].t = "te"}) > 1)
               => Verdicts([case EXCEPT !.lines = [i \in 1 .. Len(case.lines) |-> case.lines[p[i]]]]) = Verdicts(case)
Emit == PrintT(<<"CASE", ToJson([role |-> case.role, m |-> case.m, st |-> case.st, v10 |-> case.v10,
                                  ids |-> [i \in 1 .. Len(case.lines) |-> case.lines[i].id],
                                  verdicts |-> Verdicts(case), noreuse |-> NoReuse(case)])>>)
==============================================================================
