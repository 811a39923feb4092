------------------------------- MODULE MCPty --------------------------------
(***************************************************************************)
(* Design model: one run in a pseudo-terminal. A terminal with bounded     *)
(* buffers and a line discipline, a child that writes, reads and exits     *)
(* when it likes, and the library's tasks: the feeder, the reader and the  *)
(* waiter. Every step emits events of Pty; no step may break a clause and  *)
(* every run ends. Drain: the terminal is read when its output is not      *)
(* wanted. Abort: what nobody will read any more is not waited for.        *)
(***************************************************************************)
EXTENDS Pty
CONSTANTS Mode, In, Out, Cap, MaxW, MaxCancel, Drain, Abort

VARIABLES s, bad, c, t, p
vars == <<s, bad, c, t, p>>
Bytes == IF In = "line" THEN <<97, 10>> ELSE IF In = "partial" THEN <<97, 10, 98>>
         ELSE IF In = "long" THEN <<97, 10, 98, 10, 99, 10>> ELSE <<>>
Auto == In # "none"
Cfg == [mode |-> Mode, rows |-> 0, cols |-> 0, std |-> <<"term", Out, "term">>, input |-> Bytes, auto |-> Auto,
        form |-> "await", code |-> 0, fault |-> "", timeout |-> FALSE, outold |-> <<>>, piped |-> FALSE, stops |-> MaxCancel > 0]
\* the end-of-file character ends a partial line, another one the input
Feed0 == IF ~Auto THEN <<>>
         ELSE Bytes \o (IF Bytes # <<>> /\ Bytes[Len(Bytes)] = NL THEN <<EOT>> ELSE <<EOT, EOT>>)
Reads == Out = "term" \/ Drain

Init ==
  /\ s = Init0(Cfg) /\ bad = {}
  /\ c = [st |-> "new", todo |-> "", n |-> 0, eof |-> FALSE, told |-> FALSE, sig |-> FALSE, out |-> <<>>]
  /\ t = [q |-> <<>>, cur |-> <<>>, echo |-> <<>>, out |-> <<>>]
  /\ p = [feed |-> Feed0, feeder |-> Auto, reader |-> Reads, waiter |-> TRUE, pc |-> "wait", got |-> <<>>,
          cancels |-> 0, eofgot |-> FALSE]

Ev(e) == s' = Upd(s, e) /\ bad' = bad \cup Guard(s, e)
Same == UNCHANGED <<s, bad>>
Alive == c.st \in {"new", "run"}
\* --- the child --------------------------------------------------------------
Start == /\ c.st = "new" /\ c' = [c EXCEPT !.st = "run"] /\ UNCHANGED <<t, p>>
         /\ Ev([k |-> "facts", std |-> Cfg.std, extra |-> 0, ctty |-> TRUE, same |-> TRUE, leader |-> TRUE, fg |-> TRUE,
                rows |-> 0, cols |-> 0, echo |-> Echo0(Cfg), canon |-> Canon(Cfg), opost |-> Opost(Cfg),
                isig |-> Mode # "raw", icrnl |-> Mode # "raw"])
Free == c.st = "run" /\ c.todo = ""
Wills(fd) == /\ Free /\ c.n < MaxW /\ UNCHANGED <<t, p>>
            /\ c' = [c EXCEPT !.n = @ + 1, !.todo = IF fd = 1 /\ Out # "term" THEN "file" ELSE "term"]
            /\ Ev([k |-> "will", fd |-> fd, d |-> <<65 + c.n>>])
Wrote == /\ c.st = "run" /\ UNCHANGED p
         /\ \/ c.todo = "term" /\ Len(t.out) < Cap /\ t' = [t EXCEPT !.out = Append(@, 64 + c.n)]
               /\ c' = [c EXCEPT !.todo = ""]
            \/ c.todo = "file" /\ UNCHANGED t /\ c' = [c EXCEPT !.todo = "", !.out = Append(@, 64 + c.n)]
         /\ Ev([k |-> "wrote"])
WantRead == Free /\ Auto /\ ~c.eof /\ c' = [c EXCEPT !.todo = "read"] /\ Same /\ UNCHANGED <<t, p>>
Read == /\ c.st = "run" /\ c.todo = "read" /\ UNCHANGED p
        /\ IF Canon(Cfg)
             THEN /\ t.q # <<>> /\ t' = [t EXCEPT !.q = Tail(@)]
                  /\ c' = [c EXCEPT !.todo = "", !.eof = (Head(t.q) = <<>>)]
                  /\ Ev([k |-> "got", d |-> Head(t.q)])
             ELSE /\ t.cur # <<>> /\ t' = [t EXCEPT !.cur = <<>>]
                  /\ c' = [c EXCEPT !.todo = "", !.eof = (Len(Flat(s.reads) \o t.cur) = Len(Bytes))]
                  /\ Ev([k |-> "got", d |-> t.cur])
Exit == /\ Free /\ c' = [c EXCEPT !.st = "dead"] /\ Ev([k |-> "exit", code |-> 0]) /\ UNCHANGED <<t, p>>
Die == Alive /\ c.sig /\ c' = [c EXCEPT !.st = "dead"] /\ Same /\ UNCHANGED <<t, p>>
\* --- the terminal -----------------------------------------------------------
Flush == /\ t.echo # <<>> /\ Len(t.out) < Cap /\ t' = [t EXCEPT !.out = Append(@, Head(t.echo)), !.echo = Tail(@)]
         /\ Same /\ UNCHANGED <<c, p>>
\* --- the library ------------------------------------------------------------
Room == Len(Flat(t.q)) + Len(t.cur) < Cap
Into(x) == LET on == Echo0(Cfg) IN
  IF ~Canon(Cfg) THEN [t EXCEPT !.cur = Append(@, x)]
  ELSE IF x = EOT THEN [t EXCEPT !.q = Append(@, t.cur), !.cur = <<>>]
  ELSE IF x = NL THEN [t EXCEPT !.q = Append(@, Append(t.cur, x)), !.cur = <<>>, !.echo = @ \o (IF on THEN <<CR, NL>> ELSE <<>>)]
  ELSE [t EXCEPT !.cur = Append(@, x), !.echo = @ \o (IF on THEN <<x>> ELSE <<>>)]
FeedsEof == Canon(Cfg)
Feed == /\ p.pc = "wait" /\ p.feeder /\ UNCHANGED c /\ Same
        /\ \/ p.feed # <<>> /\ (FeedsEof \/ Head(p.feed) # EOT) /\ Room
              /\ t' = Into(Head(p.feed)) /\ p' = [p EXCEPT !.feed = Tail(@)]
           \/ (IF p.feed = <<>> THEN TRUE ELSE ~FeedsEof /\ Head(p.feed) = EOT) /\ UNCHANGED t
              /\ p' = [p EXCEPT !.feeder = FALSE, !.feed = <<>>]
Pull == /\ p.pc = "wait" /\ p.reader /\ t.out # <<>> /\ UNCHANGED c /\ Same
        /\ t' = [t EXCEPT !.out = Tail(@)] /\ p' = [p EXCEPT !.got = Append(@, Head(t.out))]
\* the read fails when nobody has the terminal open: that is its end
HangUp == /\ p.pc = "wait" /\ p.reader /\ t.out = <<>> /\ t.echo = <<>> /\ ~Alive /\ UNCHANGED <<c, t>> /\ Same
          /\ p' = [p EXCEPT !.reader = FALSE, !.eofgot = TRUE, !.feed = IF Abort THEN <<>> ELSE @]
Wait == /\ p.waiter /\ ~Alive /\ p' = [p EXCEPT !.waiter = FALSE] /\ c' = [c EXCEPT !.told = TRUE] /\ UNCHANGED t /\ Same
Cancel == /\ p.pc \in {"wait", "kill"} /\ p.cancels < MaxCancel /\ UNCHANGED t
          /\ p' = [p EXCEPT !.cancels = @ + 1, !.pc = "kill", !.feeder = FALSE, !.reader = FALSE]
          /\ c' = [c EXCEPT !.sig = TRUE] /\ Ev([k |-> "cancel"])
Recv(x) == <<[k |-> "recv", what |-> "term", have |-> Out = "term" /\ x = "ok", d |-> p.got],
             [k |-> "recv", what |-> "out", have |-> Out # "term", d |-> c.out],
             [k |-> "recv", what |-> "err", have |-> FALSE, d |-> <<>>],
             [k |-> "ended", out |-> x, code |-> IF x = "ok" THEN 0 ELSE 0 - 1],
             [k |-> "end", fds |-> IF p.feed # <<>> /\ ~Abort THEN 1 ELSE 0, alive |-> IF Alive THEN 1 ELSE 0, tasks |-> 0, foul |-> 0]>>
RECURSIVE All(_, _, _)
All(st, b, es) == IF es = <<>> THEN <<st, b>> ELSE All(Upd(st, Head(es)), b \cup Guard(st, Head(es)), Tail(es))
Finish == /\ \/ p.pc = "wait" /\ ~p.feeder /\ ~p.reader /\ ~p.waiter
             \/ p.pc = "kill" /\ ~p.waiter
          /\ LET r == All(s, bad, Recv(IF p.pc = "wait" THEN "ok" ELSE "Cancelled")) IN s' = r[1] /\ bad' = r[2]
          /\ p' = [p EXCEPT !.pc = "end"] /\ UNCHANGED <<c, t>>

Next == \/ Start \/ Wills(1) \/ Wills(2) \/ Wrote \/ WantRead \/ Read \/ Exit \/ Die
        \/ Flush \/ Feed \/ Pull \/ HangUp \/ Wait \/ Cancel \/ Finish
\* the child may take as long as it likes over a choice, but it does not stop for ever
Progress == Start \/ Wrote \/ Read \/ Exit \/ Die \/ Flush \/ Feed \/ Pull \/ HangUp \/ Wait \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Progress) /\ WF_vars(Exit) /\ WF_vars(Feed) /\ WF_vars(Die)
             /\ WF_vars(Pull) /\ WF_vars(HangUp) /\ WF_vars(Wait) /\ WF_vars(Wrote) /\ WF_vars(Read) /\ WF_vars(Finish)
NoClauseBroken == bad = {}
Ends == <>(p.pc = "end")
=============================================================================
