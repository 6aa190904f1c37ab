------------------------------- MODULE Chunked -------------------------------
(***************************************************************************)
(* The chunked transfer coding, as a recipient reads it: an automaton over *)
(* tokens, and independently of it the grammar.  Tokens stand for bytes    *)
(* (D0, D2: hex digits of value 0 and 2; OV: digits that overflow 64 bits; *)
(* SP, SC, CR, LF; X any other byte; DATA the current chunk's data; TL a   *)
(* field line without its CRLF, TB a line that is not a field line).       *)
(* Every finished string (complete or dead) is printed with its verdict    *)
(* and put to the code.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxTokens, MaxSize

Tokens == {"D0", "D2", "OV", "SP", "SC", "CR", "LF", "X", "DATA", "TL", "TB"}

VARIABLES str, ph, v, dig, n, tr
vars == <<str, ph, v, dig, n, tr>>
\* str: tokens so far;  ph: automaton phase;  v: size being read;  n: body length so far;  tr: trailer lines

Init == str = <<>> /\ ph = "start" /\ v = 0 /\ dig = FALSE /\ n = 0 /\ tr = 0

Val(t) == IF t = "D2" THEN 2 ELSE 0
\* tokens that can be put to the recipient in this phase (DATA only where the text can be data)
Offer(t) ==
  CASE t = "DATA" -> ph = "body"
    [] t \in {"TL", "TB"} -> ph = "endcr"
    [] t = "OV" -> ph = "start"
    [] OTHER -> ph # "body"

Go(p) == ph' = p
Step(t) ==
  /\ ph \notin {"done", "dead"} /\ Len(str) < MaxTokens /\ Offer(t)
  /\ str' = Append(str, t)
  /\ CASE ph = "start" /\ t \in {"D0", "D2"} -> Go("size") /\ v' = Val(t) /\ UNCHANGED <<n, tr>> /\ dig' = TRUE
       [] ph = "size" /\ t \in {"D0", "D2"} ->
            /\ v * 16 + Val(t) <= MaxSize
            /\ Go("size") /\ v' = v * 16 + Val(t) /\ UNCHANGED <<n, tr, dig>>
       [] ph \in {"size", "lws"} /\ t = "SP" -> Go("lws") /\ UNCHANGED <<v, n, tr, dig>>
       [] ph \in {"size", "lws"} /\ t = "SC" -> Go("ext") /\ UNCHANGED <<v, n, tr, dig>>
       [] ph \in {"size", "lws", "ext"} /\ t = "CR" -> Go("sizelf") /\ UNCHANGED <<v, n, tr, dig>>
       [] ph = "ext" /\ t \notin {"CR", "LF"} -> Go("ext") /\ UNCHANGED <<v, n, tr, dig>>
       [] ph = "sizelf" /\ t = "LF" -> Go(IF v = 0 THEN "endcr" ELSE "body") /\ UNCHANGED <<v, n, tr, dig>>
       [] ph = "body" -> Go("bodycr") /\ n' = n + v /\ UNCHANGED <<v, tr, dig>>
       [] ph = "bodycr" /\ t = "CR" -> Go("bodylf") /\ UNCHANGED <<v, n, tr, dig>>
       [] ph = "bodylf" /\ t = "LF" -> Go("start") /\ dig' = FALSE /\ v' = 0 /\ UNCHANGED <<n, tr>>
       [] ph = "endcr" /\ t = "CR" -> Go("endlf") /\ UNCHANGED <<v, n, tr, dig>>
       [] ph = "endcr" /\ t = "TL" -> Go("tcr") /\ tr' = tr + 1 /\ UNCHANGED <<v, n, dig>>
       [] ph = "tcr" /\ t = "CR" -> Go("tlf") /\ UNCHANGED <<v, n, tr, dig>>
       [] ph = "tlf" /\ t = "LF" -> Go("endcr") /\ UNCHANGED <<v, n, tr, dig>>
       [] ph = "endlf" /\ t = "LF" -> Go("done") /\ UNCHANGED <<v, n, tr, dig>>
       [] OTHER -> Go("dead") /\ UNCHANGED <<v, n, tr, dig>>

Next == \E t \in Tokens : Step(t)
Spec == Init /\ [][Next]_vars

(**************** the grammar, written independently *************************)
\* each operator returns the set of positions at which the part can end
RECURSIVE Digits(_, _)
Digits(s, i) == IF i <= Len(s) /\ s[i] \in {"D0", "D2"} THEN {i + 1} \cup Digits(s, i + 1) ELSE {}
RECURSIVE Star(_, _, _)
Star(s, i, T) == {i} \cup (IF i <= Len(s) /\ s[i] \in T THEN Star(s, i + 1, T) ELSE {})
Lit(s, i, t) == IF i <= Len(s) /\ s[i] = t THEN {i + 1} ELSE {}
Crlf(s, P) == UNION {UNION {Lit(s, j, "LF") : j \in Lit(s, i, "CR")} : i \in P}
Ext(s, i) == {i} \cup UNION {Star(s, j, Tokens \ {"CR", "LF"}) : j \in Lit(s, i, "SC")}
SizeLine(s, i) == Crlf(s, UNION {Ext(s, k) : k \in UNION {Star(s, j, {"SP"}) : j \in Digits(s, i)}})
IsZero(s, i, j) == \A k \in i .. j - 1 : s[k] # "D2"
RECURSIVE SizeOf(_, _, _)
SizeOf(s, i, acc) == IF i <= Len(s) /\ s[i] \in {"D0", "D2"} THEN SizeOf(s, i + 1, acc * 16 + Val(s[i])) ELSE acc
RECURSIVE TrailerSec(_, _)
TrailerSec(s, i) == {i} \cup UNION {TrailerSec(s, j) : j \in Crlf(s, Lit(s, i, "TL"))}
RECURSIVE Body(_, _)
Body(s, i) ==
  LET ends == SizeLine(s, i) IN
  IF ends = {} THEN {}
  ELSE IF SizeOf(s, i, 0) = 0
       THEN Crlf(s, UNION {TrailerSec(s, j) : j \in ends})
       ELSE UNION {Body(s, k) : k \in Crlf(s, UNION {Lit(s, j, "DATA") : j \in ends})}
Derivable(s) == (Len(s) + 1) \in Body(s, 1)

\* the automaton accepts exactly the grammar, and nothing dead can be continued into the grammar
Agree == /\ (ph = "done") <=> Derivable(str)
         /\ n = 0 \/ \E i \in 1 .. Len(str) : str[i] = "DATA"
Over == ph \in {"done", "dead"}
Emit == Over => PrintT(<<"STR", ToJson([s |-> str, ok |-> ph = "done", n |-> n, tr |-> tr])>>)
==============================================================================
