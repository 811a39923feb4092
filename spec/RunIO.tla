------------------------------- MODULE RunIO -------------------------------
(***************************************************************************)
(* Where the bytes of a run go. A run connects the standard streams (and   *)
(* the /dev/fd arguments) of its children, the caller and the library by   *)
(* channels. A channel is a first-in first-out sequence of bytes; it knows *)
(* who may still write to it and who may still read from it.               *)
(*                                                                         *)
(* Bytes are identified by where they come from: a segment [s, a, b] is    *)
(* bytes a (inclusive) to b (exclusive) of source s. A source is what one  *)
(* child prints on one stream, what the caller supplies, or what a file    *)
(* held before. Data that cannot be identified has the source "?".         *)
(*                                                                         *)
(* Guard(s, e) is the set of clauses event e breaks in state s, Upd(s, e)  *)
(* the state after it (as in RunnerLife). Used by TIO (traces of the real  *)
(* code) and MCPump (design model of the pumps).                           *)
(*                                                                         *)
(* cfg.names  names of the children                                        *)
(* cfg.conn   child -> descriptor (a string) -> channel                    *)
(* cfg.ch     channel -> [ kind, prop, lim, w, r, fed ]                    *)
(*   kind  "feed"   the library supplies fed, then end of file             *)
(*         "pipe"   between children                                       *)
(*         "user"   the caller holds the other end                         *)
(*         "sink"   the library moves everything to a destination          *)
(*         "lim"    the same, keeping the first lim bytes                  *)
(*         "direct" a file the child itself writes to or reads from        *)
(*         "null"   nothing in, everything vanishes                        *)
(*   prop  the property the channel is evidence for                        *)
(*   w, r  children that may write to it, read from it                     *)
(* cfg.nl    source -> ends of its lines (for line iteration)              *)
(* cfg.solo  one command without process substitutions                     *)
(* cfg.props properties this run is evidence for                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

SetOf(q) == {q[k] : k \in 1..Len(q)}

\* --- segments -------------------------------------------------------------
SLen(g) == g.b - g.a
RECURSIVE Bytes(_)
Bytes(q) == IF q = <<>> THEN 0 ELSE SLen(q[1]) + Bytes(Tail(q))
\* Append one segment, joining it to the last where it continues it.
Glue(q, g) ==
  IF g.a = g.b THEN q
  ELSE IF q # <<>> /\ q[Len(q)].s = g.s /\ q[Len(q)].b = g.a /\ g.s # "?"
  THEN [q EXCEPT ![Len(q)].b = g.b]
  ELSE Append(q, g)
RECURSIVE Join(_, _)
Join(q, d) == IF d = <<>> THEN q ELSE Join(Glue(q, d[1]), Tail(d))
\* The first n bytes, and all but the first n bytes.
RECURSIVE Take(_, _)
Take(q, n) ==
  IF n <= 0 \/ q = <<>> THEN <<>>
  ELSE IF SLen(q[1]) <= n THEN <<q[1]>> \o Take(Tail(q), n - SLen(q[1]))
  ELSE <<[q[1] EXCEPT !.b = q[1].a + n]>>
RECURSIVE Drop(_, _)
Drop(q, n) ==
  IF n <= 0 \/ q = <<>> THEN q
  ELSE IF SLen(q[1]) <= n THEN Drop(Tail(q), n - SLen(q[1]))
  ELSE <<[q[1] EXCEPT !.a = q[1].a + n]>> \o Tail(q)
IsPrefix(p, q) == p = Take(q, Bytes(p))

\* The first line of q: up to and including the first line end; all of q if there is none.
LineEnd(nl, g) ==
  LET S == IF g.s \in DOMAIN nl THEN {x \in SetOf(nl[g.s]) : x > g.a /\ x <= g.b} ELSE {}
  IN IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE FirstLine(_, _)
FirstLine(nl, q) ==
  IF q = <<>> THEN <<>>
  ELSE LET x == LineEnd(nl, q[1])
       IN IF x > 0 THEN <<[q[1] EXCEPT !.b = x]>> ELSE <<q[1]>> \o FirstLine(nl, Tail(q))
RECURSIVE HasLine(_, _)
HasLine(nl, q) == q # <<>> /\ (LineEnd(nl, q[1]) > 0 \/ HasLine(nl, Tail(q)))

\* --- state ------------------------------------------------------------------
Chans(cfg) == DOMAIN cfg.ch
Init0(cfg) ==
  [ cfg |-> cfg, stop |-> FALSE, left |-> FALSE, out |-> "", over |-> FALSE,
    st |-> [n \in SetOf(cfg.names) |-> "none"], code |-> [n \in SetOf(cfg.names) |-> 0],
    cl |-> [n \in SetOf(cfg.names) |-> {}], pipe |-> FALSE,
    ch |-> [c \in Chans(cfg) |->
             [ all |-> cfg.ch[c].fed, pend |-> cfg.ch[c].fed,
               w |-> SetOf(cfg.ch[c].w), r |-> SetOf(cfg.ch[c].r), uw |-> cfg.ch[c].kind = "user" /\ cfg.ch[c].w = <<>> ]] ]

P(s, c) == s.cfg.ch[c].prop
Kind(s, c) == s.cfg.ch[c].kind
ChanOf(s, e) == s.cfg.conn[e.n][e.fd]
\* Nobody can write to c (read from c) any more.
NoWriter(s, c) == s.ch[c].w = {} /\ ~s.ch[c].uw
NoReader(s, c) == s.ch[c].r = {}
All0(s) == \A n \in SetOf(s.cfg.names) : s.st[n] = "done" /\ s.code[n] = 0
\* A caller's input that was not read completely.
Inputs(s) == {c \in Chans(s.cfg) : Kind(s, c) \in {"feed", "user"} /\ s.cfg.ch[c].r # <<>>}
Unread(s) == \E c \in Inputs(s) : s.ch[c].pend # <<>>
\* A line that is too long for line iteration.
MaxLine == 65536
Refused(s) == \E c \in Chans(s.cfg) : P(s, c) = "C17" /\ Bytes(FirstLine(s.cfg.nl, s.ch[c].pend)) > MaxLine
\* A reason to end commands early: one of them failed, or left input unread.
Cause(s) == \/ s.pipe
            \/ Refused(s)
            \/ \E c \in Inputs(s) : s.ch[c].pend # <<>> /\ NoReader(s, c)
            \/ \E n \in SetOf(s.cfg.names) : s.code[n] # 0

\* --- events -------------------------------------------------------------------
GWrite(s, e) ==
  LET c == ChanOf(s, e) IN
  IF Kind(s, c) = "pipe" /\ NoReader(s, c) /\ ~s.stop THEN {P(s, c) \o ".no_broken_pipe"} ELSE {}
GEpipe(s, e) ==
  LET c == ChanOf(s, e) IN
  CASE s.stop \/ s.pipe -> {}
    [] Kind(s, c) = "pipe" -> IF NoReader(s, c) THEN {} ELSE {P(s, c) \o ".broken_pipe"}
    [] Kind(s, c) = "user" -> IF s.left THEN {} ELSE {P(s, c) \o ".broken_pipe"}
    [] OTHER -> {P(s, c) \o ".broken_pipe"}
\* What is read is what comes next.
GRead(s, c, d) == IF IsPrefix(d, s.ch[c].pend) THEN {} ELSE {P(s, c) \o ".data"}
GEof(s, c) ==
  IF s.stop THEN {}
  ELSE (IF s.ch[c].pend # <<>> THEN {P(s, c) \o ".lost"} ELSE {})
       \cup (IF Kind(s, c) \in {"pipe", "user"} /\ ~NoWriter(s, c) THEN {P(s, c) \o ".early_eof"} ELSE {})
GLine(s, e) ==
  LET q == s.ch[e.c].pend l == FirstLine(s.cfg.nl, q) IN
  IF Bytes(e.d) > MaxLine + 1 THEN {"C17.long"}
  ELSE IF e.d = l /\ l # <<>> /\ (HasLine(s.cfg.nl, q) \/ NoWriter(s, e.c) \/ s.stop) THEN {}
  ELSE IF s.stop /\ e.d # <<>> /\ IsPrefix(e.d, l) THEN {} ELSE {"C17.line"}

\* A destination at the end of the run.
Want(s, c) == IF Kind(s, c) = "lim" THEN Take(s.ch[c].all, s.cfg.ch[c].lim) ELSE s.ch[c].all
Full(s, e) == e.out = "ok" \/ (e.out = "ResultError" /\ s.cfg.solo)
GSink(s, e) ==
  LET c == e.c want == Join(e.base, Want(s, c)) IN
  IF e.d = want THEN {}
  ELSE IF s.cfg.ch[c].w # <<>> /\ \A n \in SetOf(s.cfg.ch[c].w) : s.st[n] = "none" THEN {} \* never opened
  ELSE IF Kind(s, c) # "direct" /\ (s.stop \/ ~Full(s, e)) /\ IsPrefix(e.d, want)
          /\ IsPrefix(e.base, e.d) THEN {}
  ELSE {P(s, c) \o (IF Kind(s, c) = "lim" /\ Bytes(e.d) > s.cfg.ch[c].lim THEN ".too_much"
                    ELSE IF IsPrefix(e.d, want) THEN ".lost" ELSE ".data")}

Each(s, tag) == {p \o tag : p \in SetOf(s.cfg.props)}
GEnd(s, e) ==
  IF e.out = "ValueError" /\ Refused(s) THEN {}
  ELSE IF s.stop \/ s.pipe THEN {}
  ELSE IF e.out \in {"BrokenPipeError", "ConnectionResetError"}
  THEN IF Unread(s) THEN {} ELSE Each(s, ".error")
  ELSE IF e.out = "ok"
  THEN {}
  ELSE IF e.out = "ResultError"
  THEN IF \E n \in SetOf(s.cfg.names) : s.code[n] # 0 \/ s.st[n] # "done" THEN {} ELSE Each(s, ".error")
  ELSE Each(s, ".error")

\* The run is stuck: b is what its children wait for.
GHang(s, e) ==
  Each(s, ".hang") \cup {"C11.hang"} \cup
  UNION { LET c == s.cfg.conn[b.n][b.fd] IN
          IF b.op = "r"
          THEN (IF s.ch[c].pend # <<>> THEN {P(s, c) \o ".stuck"} ELSE {})
               \cup (IF NoWriter(s, c) \/ Kind(s, c) = "feed" THEN {P(s, c) \o ".no_eof"} ELSE {})
          ELSE (IF Kind(s, c) = "pipe" /\ NoReader(s, c) THEN {P(s, c) \o ".no_broken_pipe"} ELSE {})
               \cup (IF Kind(s, c) \in {"sink", "lim"} THEN {P(s, c) \o ".blocked"} ELSE {})
        : b \in SetOf(e.blk) }

Guard(s, e) ==
  CASE e.k = "w" -> GWrite(s, e)
    [] e.k = "epipe" -> GEpipe(s, e)
    [] e.k = "r" -> GRead(s, ChanOf(s, e), e.d)
    [] e.k = "eof" -> GEof(s, ChanOf(s, e))
    [] e.k = "ur" -> GRead(s, e.c, e.d)
    [] e.k = "ueof" -> GEof(s, e.c)
    [] e.k = "line" -> GLine(s, e)
    [] e.k = "lines_end" -> IF s.stop \/ s.ch[e.c].pend = <<>> THEN {} ELSE {"C17.lost"}
    [] e.k = "sink" -> GSink(s, e)
    [] e.k = "end" -> GEnd(s, e)
    [] e.k = "hang" -> GHang(s, e)
    [] e.k = "sig" -> IF s.stop \/ Cause(s) THEN {} ELSE Each(s, ".killed")
    [] OTHER -> {}

\* --- what the events do ---------------------------------------------------------
Gone(s, n, c) == [s.ch[c] EXCEPT !.w = @ \ {n}, !.r = @ \ {n}]
PutIn(s, c, d) == [s EXCEPT !.ch[c].all = IF Kind(s, c) = "null" THEN @ ELSE Join(@, d),
                            !.ch[c].pend = IF Kind(s, c) \in {"pipe", "user"} THEN Join(@, d) ELSE @]
Got(s, c, d) == [s EXCEPT !.ch[c].pend = Drop(@, Bytes(d))]
\* Child n closes a descriptor; it may have another one for the same channel.
CloseFd(s, n, fd) ==
  LET c == s.cfg.conn[n][fd]
      cl == s.cl[n] \cup {fd}
      more == \E f \in DOMAIN s.cfg.conn[n] : f \notin cl /\ s.cfg.conn[n][f] = c
  IN [s EXCEPT !.cl[n] = cl, !.ch[c] = IF more THEN @ ELSE Gone(s, n, c)]
\* Child n is over, or will never be.
Exit(s, n, code) ==
  [s EXCEPT !.st[n] = "done", !.code[n] = code,
            !.ch = [c \in Chans(s.cfg) |-> Gone(s, n, c)]]

Upd(s, e) ==
  CASE e.k = "w" -> PutIn(s, ChanOf(s, e), e.d)
    [] e.k = "uw" -> PutIn(s, e.c, e.d)
    [] e.k = "epipe" -> [s EXCEPT !.pipe = Kind(s, ChanOf(s, e)) # "pipe" \/ @]
    [] e.k = "r" -> Got(s, ChanOf(s, e), e.d)
    [] e.k \in {"ur", "line"} -> Got(s, e.c, e.d)
    [] e.k = "uclose" -> [s EXCEPT !.ch[e.c].uw = FALSE]
    [] e.k = "leave" -> [s EXCEPT !.left = TRUE,
                                  !.ch = [c \in Chans(s.cfg) |-> [s.ch[c] EXCEPT !.uw = FALSE]]]
    [] e.k = "spawn" -> [s EXCEPT !.st[e.n] = "run"]
    [] e.k = "close" -> CloseFd(s, e.n, e.fd)
    [] e.k = "exit" -> Exit(s, e.n, e.code)
    [] e.k \in {"stop", "sig"} -> [s EXCEPT !.stop = TRUE, !.left = TRUE]
    [] e.k = "end" -> [s EXCEPT !.over = TRUE, !.out = e.out]
    [] OTHER -> s
=============================================================================
