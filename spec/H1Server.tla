------------------------------- MODULE H1Server -------------------------------
(***************************************************************************)
(* Design of one HTTP/1 server connection (src/proto/h1/{conn,dispatch,io} *)
(* and the server role), as an explicit state machine in an explicit       *)
(* environment: the peer's bytes, the application's service and bodies,    *)
(* and the transport.  State names follow the code: `reading`, `writing`,  *)
(* `ka` are Reading, Writing and KA of conn.rs, `closing` is the           *)
(* dispatcher's is_closing, `slot`/`want` the body channel.                *)
(*                                                                         *)
(* Every observable step feeds the observer of H1ServerObs; the invariant  *)
(* Safe says that no clause of any property is ever violated, including    *)
(* the obligations at quiescence (Quiet, when no connection step is left). *)
(* Bytes are abstract units: a head is two units, each body byte, chunk    *)
(* end or malformed spot is one.                                           *)
(***************************************************************************)
EXTENDS H1ServerObs, TLC

CONSTANTS ReqKinds, RespKinds, MaxReqs, Frames, MaxBlock, MaxTick,
          OutMax,      \* output units buffered before the body is no longer polled
          Confs        \* set of <<keep-alive, half-close, header timeout>>

VARIABLES m, s, bad
vars == <<m, s, bad>>

(***************************** scenarios *********************************)
Base == [hs |-> 0, he |-> 0, be |-> 0, bb |-> -1, segs |-> <<>>, n |-> 0, v10 |-> FALSE,
         cc |-> FALSE, ck |-> FALSE, tecl |-> FALSE, exp |-> FALSE, bad |-> <<>>, len |-> TRUE,
         tr |-> FALSE, head |-> FALSE, atmost |-> FALSE, kind |-> ""]

MkReq(k, o) ==
  LET h == [Base EXCEPT !.hs = o, !.he = o + 2, !.be = o + 2, !.kind = k] IN
  CASE k = "get"    -> h
    [] k = "head"   -> [h EXCEPT !.head = TRUE]
    [] k = "close"  -> [h EXCEPT !.cc = TRUE]
    [] k = "old"    -> [h EXCEPT !.v10 = TRUE]
    [] k = "oldka"  -> [h EXCEPT !.v10 = TRUE, !.ck = TRUE]
    [] k = "len2"   -> [h EXCEPT !.be = o + 4, !.segs = <<<<o + 2, o + 4>>>>, !.n = 2]
    [] k = "exp1"   -> [h EXCEPT !.be = o + 3, !.segs = <<<<o + 2, o + 3>>>>, !.n = 1, !.exp = TRUE]
    [] k = "chk1"   -> [h EXCEPT !.be = o + 4, !.segs = <<<<o + 2, o + 3>>>>, !.n = 1, !.len = FALSE]
    [] k = "chkbad" -> [h EXCEPT !.be = -1, !.bb = o + 4, !.segs = <<<<o + 2, o + 3>>>>, !.n = 1, !.len = FALSE]
    [] k = "bad"    -> [h EXCEPT !.bad = <<400>>, !.be = -1]

\* units of the whole message on the wire
Size(r) == IF r.bb >= 0 THEN r.bb - r.hs ELSE IF r.be >= 0 THEN r.be - r.hs ELSE 2

RECURSIVE MkReqs(_, _)
MkReqs(ks, o) == IF ks = <<>> THEN <<>>
                 ELSE LET r == MkReq(Head(ks), o) IN <<r>> \o MkReqs(Tail(ks), o + Size(r))

Stops(k) == k \in {"bad", "chkbad"}      \* nothing follows these
KindSeqs == {q \in UNION {[1 .. n -> ReqKinds] : n \in 1 .. MaxReqs} :
               \A i \in 1 .. Len(q) - 1 : ~Stops(q[i])}

Wire(sc) == LET r == sc.reqs[Len(sc.reqs)] IN r.hs + Size(r)

MkSc(ks, cf) == [reqs |-> MkReqs(ks, 0), ka |-> cf[1], hc |-> cf[2], hrt |-> cf[3], maxbuf |-> 8192,
                 mode |-> "plain", slack |-> 0, vec |-> FALSE, pf |-> FALSE, total |-> 0]

Init ==
  /\ \E ks \in KindSeqs, cf \in Confs :
       s = Init0(MkSc(ks, cf))
  /\ m = [deliv |-> 0, eofd |-> FALSE, pos |-> 0,
          reading |-> "Init", writing |-> "Init", ka |-> "Idle",
          svc |-> "none", resp |-> "none", left |-> 0, rel |-> 0, obody |-> FALSE,
          want |-> FALSE, slot |-> 0, chan |-> "none", rx |-> "none", polled |-> FALSE,
          out |-> <<>>, wok |-> TRUE, blocks |-> 0, dirty |-> FALSE,
          closing |-> FALSE, error |-> FALSE, conn |-> "run", down |-> FALSE,
          grace |-> FALSE, timer |-> -1, now |-> 0, quiet |-> FALSE]
  /\ bad = {}

(*********************** feeding the observer ******************************)
RECURSIVE Feed(_, _, _)
Feed(st, b, evs) ==
  IF evs = <<>> THEN <<st, b>>
  ELSE Feed(Upd(st, Head(evs)), b \cup Check(st, Head(evs)), Tail(evs))

Do(m2, evs) ==
  LET r == Feed(s, bad, evs) IN
  /\ m' = [m2 EXCEPT !.quiet = FALSE]
  /\ s' = r[1]
  /\ bad' = r[2]

k == s.called - 1                       \* the exchange in progress
R == Req(s, k)
Run == m.conn = "run"
Buffered == s.read - m.pos              \* bytes in the read buffer
HasNext == s.called < Len(s.sc.reqs)
NextR == s.sc.reqs[s.called + 1]

(***************************** connection steps ****************************)

\* -- reading the transport
WantsRead ==
  /\ Run /\ ~m.closing
  /\ \/ /\ m.reading = "Init" /\ m.svc = "none"
        /\ ~(HasNext /\ s.read >= NextR.he)
     \/ /\ m.reading = "Body" /\ m.chan = "open" /\ m.want /\ m.slot = 0 /\ Buffered = 0
     \/ m.reading = "KeepAlive" /\ ~s.sc.hc /\ Buffered = 0

ReadData ==
  /\ WantsRead /\ m.deliv > s.read
  /\ \E n \in 1 .. (m.deliv - s.read) :
       Do(m, <<[e |-> "rd", n |-> n, rem |-> 8192]>>)

FailConn(m2, kind, evs) ==
  Do([m2 EXCEPT !.conn = "err",
                !.chan = IF m.chan = "open" THEN "err" ELSE @,
                !.svc = "none", !.obody = FALSE],
     evs \o <<[e |-> "conn", r |-> "err", k |-> kind, d |-> ""]>>
         \o (IF m2.obody THEN <<[e |-> "bd", k |-> k, done |-> FALSE]>> ELSE <<>>))

ReadEof ==
  /\ WantsRead /\ m.deliv = s.read /\ m.eofd
  /\ LET ev == <<[e |-> "rd", n |-> 0, rem |-> 8192]>> IN
     CASE m.reading = "Init" /\ Buffered = 0 ->
            Do([m EXCEPT !.reading = "Closed", !.writing = "Closed", !.closing = TRUE], ev)
       [] m.reading = "Init" -> FailConn(m, "incomplete", ev)
       [] m.reading = "Body" ->
            Do([m EXCEPT !.reading = "Closed", !.chan = "err", !.ka = "Disabled"], ev)
       [] m.reading = "KeepAlive" -> FailConn(m, "incomplete", ev)

\* -- parsing a head
ParseHead ==
  /\ Run /\ ~m.closing /\ m.reading = "Init" /\ m.svc = "none"
  /\ HasNext /\ s.read >= NextR.he /\ NextR.bad = <<>>
  /\ LET r == NextR IN
     Do([m EXCEPT !.pos = r.he, !.svc = "run", !.resp = "none", !.timer = -1,
                  !.reading = IF r.n = 0 /\ r.len THEN "KeepAlive"
                              ELSE IF r.exp THEN "Continue" ELSE "Body",
                  !.chan = IF r.n = 0 /\ r.len THEN "none" ELSE "open",
                  !.rx = IF r.n = 0 /\ r.len THEN "none" ELSE "held",
                  !.want = ~r.exp, !.slot = 0, !.polled = FALSE,
                  !.ka = IF ReqClose(r) \/ ~s.sc.ka \/ m.ka = "Disabled" THEN "Disabled" ELSE "Busy"],
        <<[e |-> "call", k |-> s.called, p |-> s.called,
           lo |-> IF r.len THEN r.n ELSE 0, hi |-> IF r.len THEN r.n ELSE -1,
           eos |-> r.n = 0 /\ r.len]>>)

BadHead ==
  /\ Run /\ ~m.closing /\ m.reading = "Init" /\ m.svc = "none"
  /\ HasNext /\ s.read >= NextR.he /\ NextR.bad # <<>>
  /\ Do([m EXCEPT !.pos = NextR.he, !.reading = "Closed", !.writing = "Closed", !.ka = "Disabled",
                  !.error = TRUE, !.timer = -1,
                  !.out = Append(@, [t |-> "h", st |-> 400, close |-> TRUE, fr |-> "len", n |-> 0])
                          \o <<[t |-> "e"]>>],
        <<>>)

\* -- the request body
HasRx == m.rx = "held"
BodyLeft == R.segs[1][2] - m.pos                  \* data units still to decode
SendContinue ==
  /\ Run /\ ~m.closing /\ m.reading = "Continue" /\ m.want /\ HasRx
  /\ Do([m EXCEPT !.reading = "Body",
                  !.out = IF m.writing = "Init" THEN Append(@, [t |-> "c"]) ELSE @], <<>>)

Decode ==
  /\ Run /\ ~m.closing /\ m.reading = "Body" /\ m.chan = "open" /\ HasRx
  /\ m.want /\ m.slot = 0 /\ Buffered > 0
  /\ IF BodyLeft > 0
     THEN LET n == MinOf(Buffered, BodyLeft)
              fin == R.len /\ n = BodyLeft IN
          Do([m EXCEPT !.pos = @ + n, !.slot = n,
                       !.reading = IF fin THEN "KeepAlive" ELSE @,
                       !.chan = IF fin THEN "end" ELSE @], <<>>)
     ELSE IF R.bb >= 0
     THEN Do([m EXCEPT !.reading = "Closed", !.chan = "err", !.ka = "Disabled"], <<>>)
     ELSE Do([m EXCEPT !.pos = @ + 1, !.reading = "KeepAlive", !.chan = "end"], <<>>)

\* the application dropped the body: one more decoding step is tried; if that does not
\* finish the message, reading stops for good
Abandoned ==
  /\ Run /\ ~m.closing /\ m.reading \in {"Body", "Continue"} /\ m.rx = "dropped" /\ m.chan = "open"
  /\ \E rd \in (IF Buffered > 0 \/ m.deliv = s.read THEN {0} ELSE 1 .. (m.deliv - s.read)) :
       LET have == Buffered + rd
           n == MinOf(have, BodyLeft)
           fin == IF BodyLeft > 0 THEN R.len /\ n = BodyLeft ELSE have > 0 /\ R.bb < 0
           ev == IF rd > 0 THEN <<[e |-> "rd", n |-> rd, rem |-> 8192]>> ELSE <<>>
       IN IF fin
          THEN Do([m EXCEPT !.pos = IF BodyLeft > 0 THEN @ + n ELSE @ + 1, !.reading = "KeepAlive", !.chan = "end"], ev)
          ELSE Do([m EXCEPT !.pos = @ + n, !.reading = "Closed", !.chan = "end", !.ka = "Disabled"], ev)

\* -- the response
Close(kind) == kind \in {"close1", "clempty"}
NFr(kind) == CASE kind \in {"len2", "chk2"} -> 2 [] kind \in {"close1", "fail"} -> 1 [] OTHER -> 0
NoBody == R.head

TakeResponse ==
  /\ Run /\ ~m.closing /\ m.writing = "Init" /\ m.svc = "ready"
  /\ IF m.resp = "err"
     THEN FailConn(m, "user", <<[e |-> "svc", k |-> k, r |-> "err", st |-> 200, close |-> FALSE, ka |-> FALSE, nobody |-> FALSE]>>)
     ELSE LET kind == m.resp
              old == R.v10 /\ ~NoBody /\ kind \in {"chk2", "close1", "fail"}   \* delimited by the close
              last == Close(kind) \/ m.ka = "Disabled" \/ old
              body == ~NoBody /\ kind \in {"len2", "chk2", "close1", "fail"}
              fr == IF NoBody THEN "none" ELSE IF kind \in {"empty", "clempty", "len2"} THEN "len"
                    ELSE IF old THEN "close" ELSE "chunked"
              ev == <<[e |-> "svc", k |-> k, r |-> "ok", st |-> 200, close |-> Close(kind), ka |-> FALSE, nobody |-> NoBody]>>
          IN Do([m EXCEPT !.svc = "none", !.obody = body, !.left = IF body THEN NFr(kind) ELSE 0,
                          !.writing = IF body THEN "Body" ELSE IF last THEN "Closed" ELSE "KeepAlive",
                          !.ka = IF last THEN "Disabled" ELSE @,
                          !.out = @ \o <<[t |-> "h", st |-> 200, close |-> last, fr |-> fr, n |-> NFr(kind)]>>
                                     \o (IF body THEN <<>> ELSE <<[t |-> "e"]>>)],
                ev \o (IF body THEN <<>> ELSE <<[e |-> "bd", k |-> k, done |-> TRUE]>>))

TakeFrame ==
  /\ Run /\ ~m.closing /\ m.writing = "Body" /\ m.obody
  /\ Len(m.out) < OutMax                              \* can_buffer_body
  /\ m.rel > 0
  /\ IF m.left > 0
     THEN LET fin == m.left = 1 /\ m.resp = "len2" IN     \* the announced length is reached
          Do([m EXCEPT !.left = @ - 1, !.rel = @ - 1, !.obody = ~fin,
                       !.out = @ \o <<[t |-> "b"]>> \o (IF fin THEN <<[t |-> "e"]>> ELSE <<>>),
                       !.writing = IF ~fin THEN @ ELSE IF m.ka = "Disabled" THEN "Closed" ELSE "KeepAlive"],
             <<[e |-> "bp", k |-> k, t |-> "d", n |-> 1, o |-> 1]>>
             \o (IF fin THEN <<[e |-> "bd", k |-> k, done |-> TRUE]>> ELSE <<>>))
     ELSE IF m.resp = "fail"
     THEN FailConn([m EXCEPT !.rel = @ - 1, !.obody = FALSE], "user",
                   <<[e |-> "bp", k |-> k, t |-> "e"], [e |-> "bd", k |-> k, done |-> FALSE]>>)
     ELSE Do([m EXCEPT !.rel = @ - 1, !.obody = FALSE,
                       !.out = IF R.v10 /\ m.resp # "len2" THEN @ ELSE Append(@, [t |-> "e"]),
                       !.writing = IF m.ka = "Disabled" THEN "Closed" ELSE "KeepAlive"],
             <<[e |-> "bp", k |-> k, t |-> "end"], [e |-> "bd", k |-> k, done |-> TRUE]>>)

\* -- writing
OutEv(t) == CASE t.t = "c" -> [e |-> "o100", st |-> 100]
              [] t.t = "h" -> [e |-> "oh", st |-> t.st, close |-> t.close, selfd |-> t.fr # "close",
                               fr |-> t.fr, n |-> t.n, up |-> FALSE]
              [] t.t = "b" -> [e |-> "ob", n |-> 1, ok |-> TRUE]
              [] t.t = "e" -> [e |-> "oe"]
Write ==
  /\ Run /\ m.out # <<>> /\ m.wok
  /\ Do([m EXCEPT !.out = Tail(@), !.dirty = TRUE], <<[e |-> "wr", n |-> 1], OutEv(Head(m.out))>>)
Flush ==
  /\ Run /\ m.out = <<>> /\ m.wok /\ m.dirty
  /\ Do([m EXCEPT !.dirty = FALSE], <<[e |-> "fl"]>>)

\* -- between exchanges
KeepAlive ==
  /\ Run /\ ~m.closing /\ m.out = <<>> /\ ~m.dirty
  /\ m.svc = "none" /\ ~m.obody
  /\ \/ m.reading = "KeepAlive" /\ m.writing = "KeepAlive"
     \/ m.reading = "Closed" /\ m.writing = "KeepAlive"
     \/ m.reading = "KeepAlive" /\ m.writing = "Closed"
  /\ IF m.reading = "KeepAlive" /\ m.writing = "KeepAlive" /\ m.ka = "Busy"
     THEN Do([m EXCEPT !.reading = "Init", !.writing = "Init", !.ka = "Idle"], <<>>)
     ELSE Do([m EXCEPT !.reading = "Closed", !.writing = "Closed", !.ka = "Disabled"], <<>>)

Done == \/ m.closing
        \/ m.reading = "Closed" /\ (m.writing = "Closed" \/ (m.svc = "none" /\ ~m.obody /\ m.writing # "Body"))
Shutdown ==
  /\ Run /\ Done /\ m.out = <<>> /\ ~m.dirty
  /\ Do([m EXCEPT !.conn = IF m.error THEN "err" ELSE "ok", !.down = TRUE,
                  !.chan = IF @ = "open" THEN "err" ELSE @],
        <<[e |-> "sd"], [e |-> "conn", r |-> IF m.error THEN "err" ELSE "ok", k |-> "parse", d |-> ""]>>)

\* -- the header read timeout: runs while a head is awaited
AwaitHead == Run /\ ~m.closing /\ m.reading = "Init" /\ m.svc = "none" /\ s.sc.hrt >= 0
TimerStart ==
  /\ AwaitHead /\ m.timer = -1 /\ ~ENABLED(ParseHead) /\ ~ENABLED(BadHead)
  /\ Do([m EXCEPT !.timer = m.now], <<>>)
TimerFire ==
  /\ AwaitHead /\ m.timer >= 0 /\ m.now - m.timer >= s.sc.hrt
  /\ ~ENABLED(ReadData) /\ ~ENABLED(ParseHead) /\ ~ENABLED(BadHead)
  /\ FailConn(m, "timeout", <<>>)

Conn == \/ ReadData \/ ReadEof \/ ParseHead \/ BadHead \/ SendContinue \/ Decode \/ Abandoned
        \/ TakeResponse \/ TakeFrame \/ Write \/ Flush \/ KeepAlive \/ Shutdown \/ TimerStart \/ TimerFire

\* nothing is left to do: the obligations must hold
Quiet ==
  /\ ~ENABLED(Conn) /\ ~m.quiet
  /\ LET e == [e |-> "q", t |-> m.now, conn |-> IF Run THEN 1 ELSE 0, left |-> m.deliv - s.read,
               term |-> m.eofd /\ ~s.eof, ok |-> m.wok,
               oq |-> IF m.obody /\ m.rel > 0 THEN 1 ELSE 0,
               sq |-> IF m.svc = "ready" THEN 1 ELSE 0]
         r == Feed(s, bad, <<e>>)
     IN m' = [m EXCEPT !.quiet = TRUE] /\ s' = r[1] /\ bad' = r[2]

(***************************** environment *********************************)
Deliver(n) == /\ ~m.eofd /\ m.deliv + n <= Wire(s.sc)
              /\ Do([m EXCEPT !.deliv = @ + n], <<>>)
Eof == /\ ~m.eofd /\ Do([m EXCEPT !.eofd = TRUE], <<>>)

\* the application polls the body of the current request once
BodyPoll ==
  /\ k >= 0 /\ m.rx = "held"
  /\ CASE m.slot > 0 ->
            Do([m EXCEPT !.slot = 0, !.want = TRUE, !.polled = TRUE],
               LET a == R.n - s.got[k] - m.slot IN
               <<[e |-> "rb", k |-> k, t |-> "d", n |-> m.slot, ok |-> TRUE, was |-> FALSE,
                  lo |-> IF R.len THEN a ELSE 0, hi |-> IF R.len THEN a ELSE -1, eos |-> R.len /\ a = 0]>>)
       [] m.slot = 0 /\ m.chan = "open" ->
            /\ ~(m.polled /\ s.lastp[k])
            /\ Do([m EXCEPT !.want = TRUE, !.polled = TRUE], <<[e |-> "rb", k |-> k, t |-> "p"]>>)
       [] m.slot = 0 /\ m.chan = "end" ->
            Do([m EXCEPT !.rx = "done"], <<[e |-> "rb", k |-> k, t |-> "end"]>>)
       [] m.slot = 0 /\ m.chan = "err" ->
            Do([m EXCEPT !.rx = "done"], <<[e |-> "rb", k |-> k, t |-> "err", d |-> ""]>>)
       [] OTHER -> FALSE
\* a reader that was pending is woken and polls again at once
BodyWake == /\ k >= 0 /\ m.rx = "held" /\ s.lastp[k] /\ (m.slot > 0 \/ m.chan # "open") /\ BodyPoll
BodyDrop ==
  /\ k >= 0 /\ m.rx = "held"
  /\ Do([m EXCEPT !.rx = "dropped", !.slot = 0], <<[e |-> "rb", k |-> k, t |-> "drop"]>>)
Respond(kind) ==
  /\ Run /\ m.svc = "run"
  /\ Do([m EXCEPT !.svc = "ready", !.resp = kind,
                  !.rel = CASE kind \in {"len2", "chk2"} -> Frames [] OTHER -> 9], <<>>)
Release == /\ Run /\ m.obody /\ m.rel = 0 /\ Do([m EXCEPT !.rel = 9], <<>>)
Block == /\ Run /\ m.wok /\ m.blocks < MaxBlock /\ Do([m EXCEPT !.wok = FALSE, !.blocks = @ + 1], <<>>)
Unblock == /\ ~m.wok /\ Do([m EXCEPT !.wok = TRUE], <<>>)
Graceful ==
  /\ Run /\ ~m.grace
  /\ LET idle == m.ka = "Idle" /\ s.called > 0           \* reused and idle
         fresh == s.called = 0 /\ s.read = 0
         m1 == [m EXCEPT !.grace = TRUE, !.ka = "Disabled"]
         shut == idle \/ fresh \/ (m.writing = "Closed" /\ m.reading \notin {"Body", "Continue"})
     IN Do(IF shut THEN [m1 EXCEPT !.reading = "Closed", !.writing = "Closed", !.closing = TRUE] ELSE m1,
           <<[e |-> "graceful"]>>)
Tick == /\ s.sc.hrt >= 0 /\ m.now < MaxTick /\ Do([m EXCEPT !.now = @ + 1], <<[e |-> "t", t |-> m.now + 1]>>)

EnvSteps == {<<"deliver", n>> : n \in {1, Wire(s.sc)}} \cup {<<x, 0>> : x \in {"eof", "rb", "rbdrop", "release", "block", "unblock", "graceful", "tick"}}
            \cup {<<"respond", x>> : x \in RespKinds}
Env(st) ==
  CASE st[1] = "deliver" -> Deliver(IF st[2] = 1 THEN 1 ELSE MaxOf(1, Wire(s.sc) - m.deliv))
    [] st[1] = "eof" -> Eof
    [] st[1] = "rb" -> BodyPoll
    [] st[1] = "rbdrop" -> BodyDrop
    [] st[1] = "respond" -> Respond(st[2])
    [] st[1] = "release" -> Release
    [] st[1] = "block" -> Block
    [] st[1] = "unblock" -> Unblock
    [] st[1] = "graceful" -> Graceful
    [] st[1] = "tick" -> Tick

\* the reader that was left pending polls as soon as it is woken
Internal == Conn \/ BodyWake
Next == Internal \/ (~ENABLED(Internal) /\ Quiet) \/ \E st \in EnvSteps : Env(st)
Spec == Init /\ [][Next]_vars

Safe == bad = {}
ConfsPlain == {<<TRUE, FALSE, -1>>}
ConfsKa == {<<TRUE, FALSE, -1>>, <<TRUE, TRUE, -1>>, <<FALSE, FALSE, -1>>}
ConfsTimer == {<<TRUE, FALSE, 2>>}
ConfsAll == {<<a, b, c>> : a \in BOOLEAN, b \in BOOLEAN, c \in {-1, 2}}
=============================================================================
