------------------------------- MODULE Prompt -------------------------------
(***************************************************************************)
(* A prompt session: the caller talks to a child by send() and expect().   *)
(*                                                                         *)
(* Text is a sequence of tokens. A token below Fill is one character (its  *)
(* code point); Fill + n stands for n filler characters, which no pattern  *)
(* contains.                                                               *)
(*                                                                         *)
(* cfg.norm  newlines are normalised;  cfg.dt  default timeout (ms)        *)
(* cfg.defp  the default patterns                                          *)
(*                                                                         *)
(* A pattern is a sequence of sets (sequences of characters): one          *)
(* character of each in turn; a set that starts with -1 stands for any     *)
(* number of characters that are not in it. Patterns are tried in order at *)
(* the first place where one of them matches, as alternatives of a regular *)
(* expression are.                                                         *)
(*                                                                         *)
(* Events (t: time in ms):                                                 *)
(*  w d | weof        the child prints d; closes its output (or ends)      *)
(*  r d | reof        the child reads d; sees the end of its input         *)
(*  exit code                                                              *)
(*  call op d pats tmo  the caller calls expect, all, send, command        *)
(*  ret out pre m pend ateof   and it returns                              *)
(*  got d pend        read_pending()                                       *)
(*  close             the caller closes the child's input                  *)
(*  leave             the caller's block is left                           *)
(*  stop              the caller is cancelled                              *)
(*  idle blk          time is about to pass; what the child waits for      *)
(*  inres out         cli.result inside the session                        *)
(*  end out code      the session is over, cli.result's exit status        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Fill == 10000000
NoTime == 1000000000
SetOf(q) == {q[k] : k \in 1..Len(q)}
CLen(x) == IF x >= Fill THEN x - Fill ELSE 1
RECURSIVE Chars(_)
Chars(q) == IF q = <<>> THEN 0 ELSE CLen(q[1]) + Chars(Tail(q))
Glue(q, x) == IF x = Fill THEN q
              ELSE IF q # <<>> /\ q[Len(q)] >= Fill /\ x >= Fill
              THEN [q EXCEPT ![Len(q)] = @ + (x - Fill)] ELSE Append(q, x)
RECURSIVE Join(_, _)
Join(q, d) == IF d = <<>> THEN q ELSE Join(Glue(q, d[1]), Tail(d))
RECURSIVE Take(_, _)
Take(q, n) == IF n <= 0 \/ q = <<>> THEN <<>>
              ELSE IF CLen(q[1]) <= n THEN <<q[1]>> \o Take(Tail(q), n - CLen(q[1]))
              ELSE <<Fill + n>>
RECURSIVE Drop(_, _)
Drop(q, n) == IF n <= 0 \/ q = <<>> THEN q
              ELSE IF CLen(q[1]) <= n THEN Drop(Tail(q), n - CLen(q[1]))
              ELSE <<q[1] - n>> \o Tail(q)
IsPrefix(p, q) == p = Take(q, Chars(p))

\* --- newlines ------------------------------------------------------------------
CR == 13
LF == 10
\* The text that d adds, if hold tells that a CR was seen last; and whether one is seen last now.
RECURSIVE Norm(_, _)
Norm(hold, d) ==
  IF d = <<>> THEN [d |-> <<>>, hold |-> hold]
  ELSE LET h == d[1]
           x == Norm(h = CR, Tail(d))
           here == IF hold THEN (IF h = LF THEN <<LF>> ELSE IF h = CR THEN <<LF>> ELSE <<LF, h>>)
                   ELSE IF h = CR THEN <<>> ELSE <<h>>
       IN [d |-> here \o x.d, hold |-> x.hold]

\* --- patterns --------------------------------------------------------------------
Star(x) == x[1] < 0
\* Where a match of p[k..] that starts at token i ends (the next token), or 0.
RECURSIVE EndAt(_, _, _, _)
EndAt(q, i, p, k) ==
  IF k > Len(p) THEN i
  ELSE IF Star(p[k])
  THEN LET S == {j \in i..Len(q) : q[j] \in SetOf(p[k])}
       IN EndAt(q, IF S = {} THEN Len(q) + 1 ELSE CHOOSE x \in S : \A y \in S : x <= y, p, k + 1)
  ELSE IF i <= Len(q) /\ q[i] \in SetOf(p[k]) THEN EndAt(q, i + 1, p, k + 1)
  ELSE 0
Fits(q, i, p) == EndAt(q, i, p, 1) # 0
\* The first match in q: place (token index, 0: none) and number of tokens.
Places(q, ps) == {i \in 1..Len(q) : \E a \in 1..Len(ps) : Fits(q, i, ps[a])}
Search(q, ps) ==
  LET S == Places(q, ps) IN
  IF S = {} THEN [i |-> 0, n |-> 0]
  ELSE LET i == CHOOSE x \in S : \A y \in S : x <= y
           A == {a \in 1..Len(ps) : Fits(q, i, ps[a])}
           a == CHOOSE x \in A : \A y \in A : x <= y
       IN [i |-> i, n |-> EndAt(q, i, ps[a], 1) - i]
Found(q, ps) == \E i \in 1..Len(q) : \E a \in 1..Len(ps) : Fits(q, i, ps[a])

\* --- state --------------------------------------------------------------------------
Init0(cfg) ==
  [ cfg |-> cfg, t |-> 0, rest |-> <<>>, hold |-> FALSE, weof |-> FALSE, old |-> 0,
    have |-> 0,            \* characters known to be in the pending buffer
    inp |-> <<>>, closed |-> FALSE, fuzzy |-> FALSE, stop |-> FALSE, left |-> FALSE,
    op |-> "", pats |-> <<>>, due |-> NoTime, tmo |-> 0, at |-> 0, dry |-> TRUE, code |-> 0, born |-> FALSE, dead |-> FALSE, seof |-> FALSE ]

\* What is known to have reached the caller's side before the present moment.
Arrived(s) == Take(s.rest, s.old)
Reading(s) == s.op \in {"expect", "all", "command"}

\* Time passes while a call is waiting.
GTime(s, t) ==
  IF t <= s.t \/ s.op = "" THEN {}
  ELSE (IF t > s.due /\ s.t >= s.due THEN {(IF s.op = "send" THEN "C16" ELSE "C15") \o ".late"} ELSE {})
       \cup (IF s.stop THEN {(IF s.op = "send" THEN "C16" ELSE "C15") \o ".late"} ELSE {})
       \cup (IF s.op = "expect" /\ Found(s.rest, s.pats) THEN {"C15.stuck"} ELSE {})
       \cup (IF Reading(s) /\ s.weof /\ ~(s.op = "command") THEN {"C15.no_eof"} ELSE {})

\* The text left after the call, and what the call must not have lost.
GPend(s, e, used) ==
  LET rest == Drop(s.rest, used) IN
  (IF ~IsPrefix(e.pend, rest) THEN {"C15.data"} ELSE {})
  \cup (IF Chars(e.pend) < s.have - used THEN {"C15.lost"} ELSE {})
  \cup (IF e.ateof /\ (~s.weof \/ e.pend # <<>> \/ rest # <<>>) THEN {"C15.at_eof"} ELSE {})
  \cup (IF ~e.ateof /\ e.pend = <<>> /\ (s.seof \/ e.out = "EOFError") THEN {"C15.at_eof"} ELSE {})

\* A match: text before it, and itself.
GMatch(s, e) ==
  LET both == Join(e.pre, e.m)
      n == Chars(both)
      have == Take(s.rest, s.have)
      seen == IF Found(have, s.pats) THEN have ELSE both
      m == Search(seen, s.pats)
  IN IF ~IsPrefix(both, s.rest) THEN {"C15.data"}
     ELSE IF m.i = Len(e.pre) + 1 /\ m.n = Len(e.m) THEN {}
     ELSE IF s.op = "command" /\ \E k \in Len(both)..Len(s.rest) :
               Search(SubSeq(s.rest, 1, k), s.pats) = [i |-> Len(e.pre) + 1, n |-> Len(e.m)] THEN {}
     ELSE {"C15.match"}
UsedBy(e) == CASE e.out = "match" -> Chars(Join(e.pre, e.m))
               [] e.out = "text" -> Chars(e.pre)
               [] OTHER -> 0
GRet(s, e) ==
  GPend(s, e, UsedBy(e)) \cup
  CASE e.out = "match" -> IF s.op \in {"expect", "command"} THEN GMatch(s, e) ELSE {"C15.outcome"}
    [] e.out = "text" -> \* read_all, or command() up to the end of file
         IF s.op \notin {"all", "command"} THEN {"C15.outcome"}
         ELSE (IF ~s.weof THEN {"C15.early_eof"} ELSE {})
              \cup (IF e.pre # s.rest THEN {"C15.data"} ELSE {})
    [] e.out = "EOFError" ->
         IF s.op \notin {"expect", "command"} THEN {"C15.outcome"}
         ELSE (IF ~s.weof THEN {"C15.early_eof"} ELSE {})
              \cup (IF Found(s.rest, s.pats) /\ s.op = "expect" THEN {"C15.missed"} ELSE {})
              \cup (IF s.op = "expect" /\ e.pend # s.rest THEN {"C15.lost"} ELSE {})
    [] e.out = "Timeout" ->
         IF s.op = "send"
         THEN (IF e.t < s.at + s.tmo THEN {"C16.early"} ELSE {})
              \cup (IF s.dry /\ s.at < e.t THEN {"C16.slow"} ELSE {})
         ELSE (IF e.t < s.at + s.tmo THEN {"C15.early"} ELSE {})
              \cup (IF s.op = "expect" /\ Found(Arrived(s), s.pats) /\ e.t > s.at THEN {"C15.missed"} ELSE {})
              \cup (IF s.op \in {"expect", "all"} /\ e.t > s.at /\ ~IsPrefix(Arrived(s), e.pend)
                    THEN {"C15.lost"} ELSE {})
    [] e.out = "Cancelled" -> IF s.stop THEN {} ELSE {"C05.invented"}
    [] e.out = "ok" -> IF s.op = "send" THEN {} ELSE {"C15.outcome"}
    [] e.out = "TypeError" -> IF s.op \in {"expect", "command"} /\ s.pats = <<>> THEN {} ELSE {"C15.outcome"}
    [] e.out \in {"BrokenPipeError", "ConnectionResetError"} ->
         IF s.op \in {"send", "command"} /\ s.dead THEN {} ELSE {"C16.error"}
    [] OTHER -> {IF s.op \in {"send", "command"} THEN "C16.error" ELSE "C15.outcome"}

GIdle(s, e) ==
  IF s.stop THEN {}
  ELSE UNION {
    IF b = "w" THEN (IF s.op \in {"expect", "all", "command"} THEN {"C15.stuck"}
                     ELSE IF s.op = "send" THEN {"C16.deadlock"} ELSE {})
    ELSE (IF s.inp # <<>> THEN {"C16.stuck"} ELSE {})
         \cup (IF s.closed /\ s.inp = <<>> THEN {"C16.no_eof"} ELSE {})
    : b \in SetOf(e.blk) }

GEnd(s, e) ==
  (IF s.born /\ ~s.dead THEN {"C16.running"} ELSE {}) \cup
  CASE e.out = "ok" -> (IF e.code # s.code /\ s.cfg.solo THEN {"C16.result"} ELSE {}) \cup (IF s.stop THEN {"C05.swallowed"} ELSE {})
    [] e.out = "Cancelled" -> IF s.stop THEN {} ELSE {"C05.invented"}
    [] e.out \in {"Body", "BrokenPipeError", "ConnectionResetError"} -> {}
    [] OTHER -> {"C16.end"}

\* What was written before the present moment has arrived.
Adv(s, t) == IF t > s.t THEN [s EXCEPT !.t = t, !.old = Chars(s.rest), !.dry = s.inp = <<>>] ELSE s
Guard1(s, e) ==
  CASE e.k = "r" -> IF s.fuzzy \/ IsPrefix(e.d, s.inp) THEN {} ELSE {"C16.data"}
    [] e.k = "reof" -> IF s.stop \/ s.fuzzy THEN {}
                       ELSE (IF ~s.closed THEN {"C16.early_eof"} ELSE {})
                            \cup (IF s.inp # <<>> THEN {"C16.lost"} ELSE {})
    [] e.k = "ret" -> GRet(s, e)
    [] e.k = "got" -> GPend(s, e, Chars(e.d))
                      \cup (IF Chars(e.d) # s.have \/ ~IsPrefix(e.d, s.rest) THEN {"C15.data"} ELSE {})
                      \cup (IF e.pend # <<>> THEN {"C15.data"} ELSE {})
    [] e.k = "idle" -> GIdle(s, e)
    [] e.k = "inres" -> IF e.out = "RuntimeError" THEN {} ELSE {"C16.result"}
    [] e.k = "sig" -> IF s.stop \/ s.left THEN {} ELSE {"C16.killed"}
    [] e.k = "hang" -> \* the caller may wait for a child that waits for the caller (see idle)
         \* or leave a lot of output unread
         (IF (s.left /\ Chars(s.rest) < 30000) \/ (s.op = "send" /\ s.dead) THEN {"C16.hang"} ELSE {})
         \cup (IF Reading(s) /\ s.weof THEN {"C15.hang"} ELSE {})
    [] e.k = "end" -> GEnd(s, e)
    [] OTHER -> {}

Guard(s, e) == GTime(s, e.t) \cup Guard1(Adv(s, e.t), e)

Put(s, d) == IF s.cfg.norm
             THEN LET x == Norm(s.hold, d) IN [s EXCEPT !.rest = Join(@, x.d), !.hold = x.hold]
             ELSE [s EXCEPT !.rest = Join(@, d)]
OutEof(s) == [s EXCEPT !.weof = TRUE, !.hold = FALSE, !.rest = IF s.hold THEN Append(@, LF) ELSE @]
Use(s, e, n) == [s EXCEPT !.rest = Drop(@, n), !.have = Chars(e.pend), !.old = IF @ > n THEN @ - n ELSE 0]
Min2(a, b) == IF a < b THEN a ELSE b

Upd0(s, e) ==
  CASE e.k = "w" -> Put(s, e.d)
    [] e.k = "weof" -> OutEof(s)
    [] e.k = "r" -> [s EXCEPT !.inp = Drop(@, Chars(e.d))]
    [] e.k = "exit" -> [(IF s.weof THEN s ELSE OutEof(s)) EXCEPT !.code = e.code, !.dead = TRUE]
    [] e.k = "call" -> [s EXCEPT !.op = e.op, !.pats = e.pats, !.at = e.t,
                                 !.inp = IF e.op = "send" \/ (e.op = "command" /\ ~s.weof) THEN Join(@, e.d) ELSE @,
                                 !.fuzzy = @ \/ (e.op = "command" /\ s.weof),
                                 !.tmo = e.tmo,
                                 !.due = IF e.tmo = NoTime THEN NoTime
                                         ELSE IF e.op = "command" THEN e.t + 2 * e.tmo ELSE e.t + e.tmo]
    [] e.k = "ret" -> [Use(s, e, UsedBy(e)) EXCEPT !.op = "", !.due = NoTime,
                         !.seof = @ \/ e.out \in {"EOFError", "text"}]
    [] e.k = "got" -> Use(s, e, Chars(e.d))
    [] e.k = "spawn" -> [s EXCEPT !.born = TRUE]
    [] e.k = "close" -> [s EXCEPT !.closed = TRUE]
    [] e.k = "leave" -> [s EXCEPT !.closed = TRUE, !.left = TRUE]
    [] e.k = "stop" -> [s EXCEPT !.stop = TRUE]
    [] OTHER -> s
Upd(s, e) == Upd0(Adv(s, e.t), e)
=============================================================================
