------------------------------- MODULE MCPump -------------------------------
(***************************************************************************)
(* Design model: how shellous connects children and moves bytes: bounded   *)
(* kernel pipes, a feeder for the input, a copier for each captured        *)
(* stream, pipes between stages whose ends the parent gives away, and      *)
(* children that read, write, close and exit in any order. Each step emits *)
(* the events of RunIO; no step may break a clause of it, and every run    *)
(* ends.                                                                   *)
(*                                                                         *)
(* Drain, GiveAway, EofLast and Flush are what the design relies on; with  *)
(* one of them FALSE a clause breaks or a run does not end.                *)
(***************************************************************************)
EXTENDS RunIO

CONSTANTS
  Shape,    \* "one", "pipe": a | b, "sub": a's argument reads b
  Fed,      \* bytes of input
  Cap,      \* capacity of a kernel pipe
  Lim,      \* limit of buffered standard error
  MaxOps,   \* a child does at most this many things before it exits
  MaxOpsB,
  Codes,    \* exit statuses
  Cancels,  \* the caller may be cancelled
  Drain,    \* a copier goes on reading beyond its limit
  GiveAway, \* the parent closes its copies of the pipes between children
  EofLast,  \* the input is closed after its last byte, not before
  Flush     \* the run is over only when the copiers have seen the end

VARIABLES s, bad, k, l
vars == <<s, bad, k, l>>

Names == IF Shape = "one" THEN <<"a">> ELSE <<"a", "b">>
N == SetOf(Names)
In == <<[s |-> "i", a |-> 0, b |-> Fed]>>
Chan(kind, prop, lim, w, r, fed) == [kind |-> kind, prop |-> prop, lim |-> lim, w |-> w, r |-> r, fed |-> fed]
Feed == Chan("feed", "C10", 0, <<>>, <<"a">>, IF Fed = 0 THEN <<>> ELSE In)
NoIn == Chan("feed", "C10", 0, <<>>, <<"b">>, <<>>)
Cfg ==
  [names |-> Names, nl |-> [x \in {} |-> <<>>], solo |-> Shape = "one", props |-> <<"C08", "C10", "C11", "C12", "C14">>,
   conn |-> CASE Shape = "one" -> [a |-> ("0" :> "i" @@ "1" :> "o" @@ "2" :> "x")]
              [] Shape = "pipe" -> [a |-> ("0" :> "i" @@ "1" :> "p"), b |-> ("0" :> "p" @@ "1" :> "o" @@ "2" :> "x")]
              [] OTHER -> [a |-> ("0" :> "i" @@ "1" :> "o" @@ "5" :> "p"), b |-> ("0" :> "j" @@ "1" :> "p")],
   ch |-> CASE Shape = "one" -> ("i" :> Feed @@ "o" :> Chan("sink", "C08", 0, <<"a">>, <<>>, <<>>)
                                 @@ "x" :> Chan("lim", "C09", Lim, <<"a">>, <<>>, <<>>))
            [] Shape = "pipe" -> ("i" :> Feed @@ "p" :> Chan("pipe", "C12", 0, <<"a">>, <<"b">>, <<>>)
                                  @@ "o" :> Chan("sink", "C08", 0, <<"b">>, <<>>, <<>>)
                                  @@ "x" :> Chan("lim", "C09", Lim, <<"b">>, <<>>, <<>>))
            [] OTHER -> ("i" :> Feed @@ "j" :> NoIn @@ "p" :> Chan("pipe", "C14", 0, <<"b">>, <<"a">>, <<>>)
                         @@ "o" :> Chan("sink", "C08", 0, <<"a">>, <<>>, <<>>))]
C == DOMAIN Cfg.ch
Sinks == {c \in C : Cfg.ch[c].kind \in {"sink", "lim"}}
Feeds == {c \in C : Cfg.ch[c].kind = "feed"}
Reads(n, fd) == \E q \in SetOf(Cfg.ch[Cfg.conn[n][fd]].r) : q = n
Ops(n) == IF n = "a" THEN MaxOps ELSE MaxOpsB

\* k: the kernel: buffers and who holds an end ("lib" is this process)
\* l: the library, and the children's plans
Init ==
  /\ s = Init0(Cfg) /\ bad = {}
  /\ k = [buf |-> [c \in C |-> <<>>],
          w |-> [c \in C |-> IF c \in Feeds \/ Cfg.ch[c].kind = "pipe" THEN {"lib"} ELSE {}],
          r |-> [c \in C |-> IF c \in Sinks \/ Cfg.ch[c].kind = "pipe" THEN {"lib"} ELSE {}],
          fds |-> [n \in N |-> {}], made |-> [n \in N |-> 0]]
  /\ l = [pc |-> "launch", next |-> 1, left |-> [c \in Feeds |-> Cfg.ch[c].fed], feed |-> Feeds,
          got |-> [c \in Sinks |-> <<>>], copy |-> Sinks, told |-> {},
          todo |-> [n \in N |-> "none"], ops |-> [n \in N |-> 0], sig |-> {}]

Ev(e) == s' = Upd(s, e) /\ bad' = bad \cup Guard(s, e)
Same == UNCHANGED <<s, bad>>
RECURSIVE All(_, _, _)
All(st, b, es) == IF es = <<>> THEN <<st, b>> ELSE All(Upd(st, Head(es)), b \cup Guard(st, Head(es)), Tail(es))
Evs(es) == LET x == All(s, bad, es) IN s' = x[1] /\ bad' = x[2]

\* --- the library --------------------------------------------------------------
\* a child gets its ends of the pipes; the parent's copies are closed when the child runs
Launch ==
  /\ l.pc = "launch"
  /\ LET n == Names[l.next]
         mine == {Cfg.conn[n][fd] : fd \in DOMAIN Cfg.conn[n]}
         gone(c) == GiveAway /\ c \in mine /\ Cfg.ch[c].kind = "pipe"
     IN /\ Ev([k |-> "spawn", n |-> n])
        /\ k' = [k EXCEPT !.fds[n] = DOMAIN Cfg.conn[n],
                          !.w = [c \in C |-> (@[c] \cup (IF n \in SetOf(Cfg.ch[c].w) THEN {n} ELSE {}))
                                             \ (IF gone(c) /\ n \in SetOf(Cfg.ch[c].w) THEN {"lib"} ELSE {})],
                          !.r = [c \in C |-> (@[c] \cup (IF n \in SetOf(Cfg.ch[c].r) THEN {n} ELSE {}))
                                             \ (IF gone(c) /\ n \in SetOf(Cfg.ch[c].r) THEN {"lib"} ELSE {})]]
  /\ l' = [l EXCEPT !.next = @ + 1, !.pc = IF l.next = Len(Names) THEN "run" ELSE "launch"]
Started(c) == \A n \in SetOf(Cfg.ch[c].w) \cup SetOf(Cfg.ch[c].r) : k.fds[n] # {} \/ s.st[n] # "none"
Feeder(c) ==
  /\ l.pc \in {"launch", "run"} /\ c \in l.feed /\ Started(c) /\ Same
  /\ IF k.r[c] = {} \/ l.left[c] = <<>>
       THEN /\ l' = [l EXCEPT !.feed = @ \ {c}] /\ k' = [k EXCEPT !.w[c] = @ \ {"lib"}]
       ELSE /\ Bytes(k.buf[c]) < Cap
            /\ k' = [k EXCEPT !.buf[c] = Join(@, Take(l.left[c], 1)),
                              !.w[c] = IF EofLast \/ Bytes(l.left[c]) > 2 THEN @ ELSE @ \ {"lib"}]
            /\ l' = [l EXCEPT !.left[c] = Drop(@, 1)]
Copier(c) ==
  /\ l.pc \in {"launch", "run"} /\ c \in l.copy /\ Started(c) /\ Same
  /\ \/ /\ k.buf[c] # <<>>
        /\ \E m \in 1..Bytes(k.buf[c]) :
             /\ k' = [k EXCEPT !.buf[c] = Drop(@, m)]
             /\ l' = [l EXCEPT !.got[c] = IF Cfg.ch[c].kind = "lim" THEN Take(Join(@, Take(k.buf[c], m)), Lim)
                                          ELSE Join(@, Take(k.buf[c], m)),
                               !.copy = IF ~Drain /\ Cfg.ch[c].kind = "lim" /\ Bytes(l.got[c]) + m >= Lim THEN @ \ {c} ELSE @]
     \/ /\ k.buf[c] = <<>> /\ k.w[c] = {} /\ l' = [l EXCEPT !.copy = @ \ {c}] /\ k' = [k EXCEPT !.r[c] = {}]
Notice(n) ==
  /\ s.st[n] = "done" /\ n \notin l.told /\ UNCHANGED k
  /\ LET fails == l.pc = "run" /\ s.code[n] > 0 /\ Shape # "one" /\ (Shape = "pipe" \/ n = "b")
         rest == {m \in N \ {n} : s.st[m] = "run"}
     IN /\ l' = [l EXCEPT !.told = @ \cup {n}, !.sig = IF fails THEN @ \cup rest ELSE @,
                          !.feed = IF fails THEN {} ELSE @, !.copy = IF fails THEN {} ELSE @, !.pc = IF fails THEN "kill" ELSE @]
        /\ IF fails /\ rest # {} THEN Ev([k |-> "sig"]) ELSE Same
Cancel ==
  /\ Cancels /\ l.pc \in {"launch", "run"} /\ UNCHANGED k
  /\ l' = [l EXCEPT !.pc = "kill", !.sig = {n \in N : s.st[n] = "run"}, !.feed = {}, !.copy = {}]
  /\ Ev([k |-> "stop"])
OverNow == {c \in Sinks : l.pc = "run"}
Result == IF l.pc = "kill" THEN (IF \E n \in N : s.code[n] > 0 THEN "ResultError" ELSE "Cancelled")
          ELSE IF \E n \in N : s.code[n] # 0 THEN "ResultError" ELSE "ok"
Order == CASE Shape = "sub" -> <<"o">> [] OTHER -> <<"o", "x">>
Finish ==
  /\ l.pc \in {"run", "kill"} /\ UNCHANGED k
  /\ \A n \in N : s.st[n] = "none" \/ n \in l.told
  /\ l.pc = "run" /\ Flush => l.copy = {} /\ l.feed = {}
  /\ Evs([j \in 1..Len(Order) |-> [k |-> "sink", c |-> Order[j], base |-> <<>>, d |-> l.got[Order[j]], out |-> Result]]
         \o <<[k |-> "end", out |-> Result]>>)
  /\ l' = [l EXCEPT !.pc = "end"]

\* --- the children -------------------------------------------------------------
Live(n) == s.st[n] = "run" /\ n \notin l.sig
Free(n) == Live(n) /\ l.todo[n] = "none"
Choose(n) == /\ Free(n) /\ l.ops[n] < Ops(n) /\ Same /\ UNCHANGED k
             /\ \E fd \in k.fds[n] : l' = [l EXCEPT !.todo[n] = fd, !.ops[n] = @ + 1]
Close(n) == /\ Free(n) /\ l.ops[n] < Ops(n)
            /\ \E fd \in k.fds[n] : LET c == Cfg.conn[n][fd] IN
                 /\ k' = [k EXCEPT !.fds[n] = @ \ {fd}, !.w[c] = @ \ {n}, !.r[c] = @ \ {n}]
                 /\ l' = [l EXCEPT !.ops[n] = @ + 1]
                 /\ Ev([k |-> "close", n |-> n, fd |-> fd])
Do(n) ==
  /\ Live(n) /\ l.todo[n] # "none"
  /\ LET fd == l.todo[n] c == Cfg.conn[n][fd] IN
     /\ l' = [l EXCEPT !.todo[n] = "none"]
     /\ IF Reads(n, fd)
          THEN \/ /\ k.buf[c] # <<>>
                  /\ \E m \in {1, Bytes(k.buf[c])} :
                       /\ k' = [k EXCEPT !.buf[c] = Drop(@, m)]
                       /\ Ev([k |-> "r", n |-> n, fd |-> fd, d |-> Take(k.buf[c], m)])
               \/ /\ k.buf[c] = <<>> /\ k.w[c] = {} /\ UNCHANGED k /\ Ev([k |-> "eof", n |-> n, fd |-> fd])
          ELSE \/ /\ k.r[c] = {} /\ UNCHANGED k /\ Ev([k |-> "epipe", n |-> n, fd |-> fd])
               \/ /\ k.r[c] # {} /\ Bytes(k.buf[c]) < Cap
                  /\ LET g == <<[s |-> n, a |-> k.made[n], b |-> k.made[n] + 1]>> IN
                     /\ k' = [k EXCEPT !.buf[c] = Join(@, g), !.made[n] = @ + 1]
                     /\ Ev([k |-> "w", n |-> n, fd |-> fd, d |-> g])
Over(n, code) ==
  /\ k' = [k EXCEPT !.fds[n] = {}, !.w = [c \in C |-> @[c] \ {n}], !.r = [c \in C |-> @[c] \ {n}]]
  /\ Ev([k |-> "exit", n |-> n, code |-> code])
Quit(n) == Free(n) /\ UNCHANGED l /\ \E code \in Codes : Over(n, code)
Die(n) == s.st[n] = "run" /\ n \in l.sig /\ UNCHANGED l /\ Over(n, 0 - 15)

Next == \/ Launch \/ Cancel \/ Finish
        \/ \E c \in C : (c \in Feeds /\ Feeder(c)) \/ (c \in Sinks /\ Copier(c))
        \/ \E n \in N : Notice(n) \/ Choose(n) \/ Close(n) \/ Do(n) \/ Quit(n) \/ Die(n)
Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Launch) /\ WF_vars(Finish)
        /\ \A c \in C : WF_vars(c \in Feeds /\ Feeder(c)) /\ WF_vars(c \in Sinks /\ Copier(c))
        /\ \A n \in N : WF_vars(Notice(n)) /\ WF_vars(Do(n)) /\ WF_vars(Quit(n)) /\ WF_vars(Die(n))
NoClauseBroken == bad = {}
Ends == <>(l.pc = "end")
=============================================================================
