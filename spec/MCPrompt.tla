------------------------------ MODULE MCPrompt ------------------------------
(***************************************************************************)
(* Design model: a prompt session. The child prints and reads what and     *)
(* when it likes; its output comes in chunks of any size through a bounded *)
(* pipe and a bounded stream buffer, is decoded piece by piece, collected  *)
(* in the pending buffer and searched there; sending reads concurrently.   *)
(* Each step emits the events of Prompt; no step may break a clause of it, *)
(* and every session ends.                                                 *)
(*                                                                         *)
(* Keep, HoldCR, Whole and ReadToo are what the design relies on.          *)
(***************************************************************************)
EXTENDS Prompt

CONSTANTS
  Alphabet, \* what the child prints
  PatSets,  \* numbers of the pattern sets in use
  MaxW, MaxR, \* characters that the child prints, reads at most
  MaxCalls, \* calls of the caller
  Sends,    \* the caller may send
  Tmos,     \* timeouts, in ticks (9: none)
  MaxT,     \* end of time
  MaxStop,  \* cancellations of the caller
  IsNorm,   \* newlines are normalised
  Cap, Buf, \* capacity of a pipe, of the stream reader
  Keep,     \* a timed-out or cancelled call leaves the text in the pending buffer
  HoldCR,   \* the decoder remembers a CR between two chunks
  Whole,    \* all of the pending buffer is searched, not only what is new
  ReadToo   \* send() reads while it waits

VARIABLES s, bad, c, p, u
vars == <<s, bad, c, p, u>>
PatsOf(n) == CASE n = 1 -> <<<<<<97>>>>>>
               [] n = 2 -> <<<<<<97>>, <<98>>>>>>
               [] n = 3 -> <<<<<<98>>>>, <<<<97>>, <<98>>>>>>
               [] n = 5 -> <<<<<<98>>, <<-1, 97, 98>>, <<97, 98>>>>, <<<<97>>, <<-1, 98>>, <<98>>>>>>
               [] OTHER -> <<<<<<10>>, <<97>>>>>>
Cfg == [norm |-> IsNorm, dt |-> NoTime, defp |-> <<>>, solo |-> TRUE]
Text(n) == [j \in 1..n |-> 120]

\* c: the child and its two pipes; p: the library; u: the caller
Init ==
  /\ s = Upd(Init0(Cfg), [k |-> "spawn", t |-> 0]) /\ bad = {}
  /\ c = [st |-> "run", todo |-> "", ob |-> <<>>, ib |-> <<>>, oend |-> FALSE, iend |-> FALSE, w |-> 0, r |-> 0, eof |-> FALSE, sig |-> FALSE, code |-> 0]
  /\ p = [rb |-> <<>>, rend |-> FALSE, hold |-> FALSE, pend |-> <<>>, ateof |-> FALSE, sb |-> <<>>, shut |-> FALSE, drain |-> FALSE]
  /\ u = [pc |-> "idle", calls |-> 0, pats |-> 1, due |-> NoTime, now |-> 0, stops |-> 0, out |-> ""]

T == u.now
RECURSIVE All(_, _, _)
All(st, b, es) == IF es = <<>> THEN <<st, b>>
                  ELSE LET x == [t |-> T] @@ Head(es) IN All(Upd(st, x), b \cup Guard(st, x), Tail(es))
Evs(es) == LET x == All(s, bad, es) IN s' = x[1] /\ bad' = x[2]
Same == UNCHANGED <<s, bad>>

\* --- the child ------------------------------------------------------------------
Free == c.st = "run" /\ ~c.sig /\ c.todo = ""
Plan == /\ Free /\ UNCHANGED <<p, u>> /\ Same
        /\ \/ c.w < MaxW /\ ~c.oend /\ c' = [c EXCEPT !.todo = "w"]
           \/ c.r < MaxR /\ ~c.eof /\ c' = [c EXCEPT !.todo = "r"]
Write == /\ c.st = "run" /\ ~c.sig /\ c.todo = "w" /\ Len(c.ob) < Cap /\ UNCHANGED <<p, u>>
         /\ \E x \in Alphabet : /\ c' = [c EXCEPT !.todo = "", !.w = @ + 1, !.ob = Append(@, x)]
                                /\ Evs(<<[k |-> "w", d |-> <<x>>]>>)
Read == /\ c.st = "run" /\ ~c.sig /\ c.todo = "r" /\ UNCHANGED <<p, u>>
        /\ \/ /\ c.ib # <<>> /\ c' = [c EXCEPT !.todo = "", !.r = @ + 1, !.ib = Tail(@)]
              /\ Evs(<<[k |-> "r", d |-> <<Head(c.ib)>>]>>)
           \/ /\ c.ib = <<>> /\ c.iend /\ c' = [c EXCEPT !.todo = "", !.eof = TRUE]
              /\ Evs(<<[k |-> "reof"]>>)
CloseOut == Free /\ ~c.oend /\ c' = [c EXCEPT !.oend = TRUE] /\ Evs(<<[k |-> "weof"]>>) /\ UNCHANGED <<p, u>>
Gone(code) == /\ c' = [c EXCEPT !.st = "dead", !.oend = TRUE, !.code = code, !.todo = ""]
              /\ Evs(<<[k |-> "exit", code |-> code]>>) /\ UNCHANGED <<p, u>>
Quit == Free /\ Gone(0)
Die == c.st = "run" /\ c.sig /\ Gone(0 - 15)
Blocked == IF c.st # "run" THEN <<>>
           ELSE IF c.todo = "w" /\ Len(c.ob) >= Cap THEN <<"w">>
           ELSE IF c.todo = "r" /\ c.ib = <<>> /\ ~c.iend THEN <<"r">> ELSE <<>>

\* --- the library: streams ---------------------------------------------------------
Open == u.pc \notin {"end"}
Reads == u.pc \in {"expect", "all"} \/ (u.pc = "send" /\ ReadToo)
\* when the block is left the stream reader takes what is left (while it is not much)
PumpOk == Open /\ c.ob # <<>> /\ (Len(p.rb) < Buf \/ u.pc \in {"leaving", "killing"})
Pump == /\ PumpOk /\ Same /\ UNCHANGED u
        /\ \E n \in 1..Len(c.ob) : p' = [p EXCEPT !.rb = @ \o SubSeq(c.ob, 1, n)] /\ c' = [c EXCEPT !.ob = SubSeq(@, n + 1, Len(@))]
PumpEndOk == Open /\ c.ob = <<>> /\ c.oend /\ ~p.rend
PumpEnd == PumpEndOk /\ p' = [p EXCEPT !.rend = TRUE] /\ UNCHANGED <<c, u>> /\ Same
FlushOk == Open /\ p.sb # <<>> /\ (c.st = "dead" \/ Len(c.ib) < Cap)
Flush == /\ FlushOk /\ Same /\ UNCHANGED u
         /\ IF c.st = "dead" THEN p' = [p EXCEPT !.sb = <<>>] /\ UNCHANGED c
            ELSE p' = [p EXCEPT !.sb = Tail(@)] /\ c' = [c EXCEPT !.ib = Append(@, Head(p.sb))]
ShutOk == Open /\ p.shut /\ p.sb = <<>> /\ ~c.iend
Shut == ShutOk /\ c' = [c EXCEPT !.iend = TRUE] /\ UNCHANGED <<p, u>> /\ Same

\* --- the library: calls -------------------------------------------------------------
Find(q, n) == Search(q, PatsOf(n))
Hit(q, m) == [k |-> "ret", out |-> "match", pre |-> SubSeq(q, 1, m.i - 1), m |-> SubSeq(q, m.i, m.i + m.n - 1),
              pend |-> SubSeq(q, m.i + m.n, Len(q)), ateof |-> p.ateof /\ m.i + m.n > Len(q)]
\* at_eof: nothing more comes and nothing is pending
Ret(out, pre, pend, ateof) == [k |-> "ret", out |-> out, pre |-> pre, m |-> <<>>, pend |-> pend, ateof |-> ateof /\ pend = <<>>]
Call(op, n, d, tmo) == [k |-> "call", op |-> op, pats |-> IF op = "expect" THEN PatsOf(n) ELSE <<>>, d |-> d,
                        tmo |-> IF tmo = 9 THEN NoTime ELSE tmo]
DueOf(tmo) == IF tmo = 9 THEN NoTime ELSE T + tmo
Idle == u.pc = "idle" /\ u.calls < MaxCalls
Expect ==
  /\ Idle /\ UNCHANGED c
  /\ \E n \in PatSets, tmo \in Tmos :
       LET m == Find(p.pend, n) IN
       IF m.i > 0
         THEN /\ Evs(<<Call("expect", n, <<>>, tmo), Hit(p.pend, m)>>)
              /\ p' = [p EXCEPT !.pend = SubSeq(@, m.i + m.n, Len(@))] /\ u' = [u EXCEPT !.calls = @ + 1]
       ELSE IF p.ateof
         THEN /\ Evs(<<Call("expect", n, <<>>, tmo), Ret("EOFError", <<>>, p.pend, TRUE)>>)
              /\ UNCHANGED p /\ u' = [u EXCEPT !.calls = @ + 1]
       ELSE /\ Evs(<<Call("expect", n, <<>>, tmo)>>) /\ UNCHANGED p
            /\ u' = [u EXCEPT !.calls = @ + 1, !.pc = "expect", !.pats = n, !.due = DueOf(tmo)]
ReadAll ==
  /\ Idle /\ UNCHANGED c
  /\ \E tmo \in Tmos :
       IF p.ateof
         THEN /\ Evs(<<Call("all", 1, <<>>, tmo), Ret("text", p.pend, <<>>, TRUE)>>)
              /\ p' = [p EXCEPT !.pend = <<>>] /\ u' = [u EXCEPT !.calls = @ + 1]
       ELSE /\ Evs(<<Call("all", 1, <<>>, tmo)>>) /\ UNCHANGED p
            /\ u' = [u EXCEPT !.calls = @ + 1, !.pc = "all", !.due = DueOf(tmo)]
Send ==
  /\ Idle /\ Sends /\ ~p.shut /\ c.st = "run" /\ UNCHANGED c
  /\ \E n \in {1, 2}, tmo \in Tmos :
       /\ Evs(<<Call("send", 1, Text(n), tmo)>>)
       /\ p' = [p EXCEPT !.sb = @ \o Text(n)]
       /\ u' = [u EXCEPT !.calls = @ + 1, !.pc = "send", !.due = DueOf(tmo)]
Close == Idle /\ Sends /\ ~p.shut /\ p' = [p EXCEPT !.shut = TRUE] /\ u' = [u EXCEPT !.calls = @ + 1]
         /\ Evs(<<[k |-> "close"]>>) /\ UNCHANGED c

Back == [u EXCEPT !.pc = "idle", !.due = NoTime]
ChunkOk == Reads /\ p.rb # <<>>
Chunk ==
  /\ ChunkOk /\ UNCHANGED c
  /\ \E n \in 1..Len(p.rb) :
       LET x == IF IsNorm THEN Norm(p.hold, SubSeq(p.rb, 1, n)) ELSE [d |-> SubSeq(p.rb, 1, n), hold |-> FALSE]
           d == IF HoldCR \/ ~x.hold THEN x.d ELSE Append(x.d, LF)
           q == p.pend \o d
           m0 == Find(IF Whole THEN q ELSE d, u.pats)
           m == IF Whole \/ m0.i = 0 THEN m0 ELSE [m0 EXCEPT !.i = @ + Len(p.pend)]
           new == [p EXCEPT !.rb = SubSeq(@, n + 1, Len(@)), !.hold = x.hold /\ HoldCR, !.pend = q]
       IN IF u.pc = "expect" /\ d # <<>> /\ m.i > 0
            THEN /\ Evs(<<Hit(q, m)>>) /\ p' = [new EXCEPT !.pend = SubSeq(q, m.i + m.n, Len(q))] /\ u' = Back
            ELSE Same /\ p' = new /\ UNCHANGED u
EofOk == Reads /\ p.rb = <<>> /\ p.rend /\ ~p.ateof
Eof ==
  /\ EofOk /\ UNCHANGED c
  /\ LET q == IF p.hold THEN Append(p.pend, LF) ELSE p.pend
         m == Find(q, u.pats)
         new == [p EXCEPT !.ateof = TRUE, !.hold = FALSE, !.pend = q]
     IN CASE u.pc = "expect" ->
               IF m.i > 0 THEN /\ Evs(<<[Hit(q, m) EXCEPT !.ateof = @ \/ m.i + m.n > Len(q)]>>)
                               /\ p' = [new EXCEPT !.pend = SubSeq(q, m.i + m.n, Len(q))] /\ u' = Back
               ELSE Evs(<<Ret("EOFError", <<>>, q, TRUE)>>) /\ p' = new /\ u' = Back
          [] u.pc = "all" -> Evs(<<Ret("text", q, <<>>, TRUE)>>) /\ p' = [new EXCEPT !.pend = <<>>] /\ u' = Back
          [] OTHER -> Same /\ p' = new /\ UNCHANGED u
SentOk == u.pc = "send" /\ p.sb = <<>>
Sent == SentOk /\ Evs(<<Ret("ok", <<>>, p.pend, p.ateof)>>) /\ u' = Back /\ UNCHANGED <<c, p>>
LateOk == u.pc \in {"expect", "all", "send"} /\ T >= u.due
Left == IF Keep THEN p.pend ELSE <<>>
Late == LateOk /\ Evs(<<Ret("Timeout", <<>>, Left, p.ateof)>>) /\ u' = Back /\ p' = [p EXCEPT !.pend = Left] /\ UNCHANGED c

\* --- the caller ----------------------------------------------------------------------
Stop ==
  /\ u.pc \in {"expect", "all", "send", "idle", "leaving"} /\ u.stops < MaxStop
  /\ Evs(<<[k |-> "stop"]>> \o (IF u.pc \in {"expect", "all", "send"} THEN <<Ret("Cancelled", <<>>, Left, p.ateof)>> ELSE <<>>)
         \o (IF u.pc = "leaving" THEN <<>> ELSE <<[k |-> "leave"]>>))
  /\ u' = [u EXCEPT !.stops = @ + 1, !.pc = "killing", !.due = NoTime] /\ p' = [p EXCEPT !.pend = Left, !.shut = TRUE]
  /\ c' = [c EXCEPT !.sig = TRUE]
Leave == /\ u.pc = "idle" /\ Evs(<<[k |-> "leave"]>>) /\ u' = [u EXCEPT !.pc = "leaving"]
         /\ p' = [p EXCEPT !.shut = TRUE] /\ UNCHANGED c
End == /\ u.pc \in {"leaving", "killing"} /\ c.st = "dead"
       /\ Evs(<<[k |-> "end", out |-> IF u.pc = "killing" THEN "Cancelled" ELSE "ok", code |-> c.code]>>)
       /\ u' = [u EXCEPT !.pc = "end"] /\ UNCHANGED <<c, p>>
\* the library takes no time
Busy == PumpOk \/ PumpEndOk \/ FlushOk \/ ShutOk \/ ChunkOk \/ EofOk \/ SentOk \/ LateOk
Tick == /\ u.pc # "end" /\ T < MaxT /\ ~Busy /\ UNCHANGED <<c, p>>
        /\ Evs(<<[k |-> "idle", blk |-> Blocked]>>) /\ u' = [u EXCEPT !.now = @ + 1]
\* two that wait for each other are freed from outside
Outside == /\ T = MaxT /\ ~Busy /\ c.st = "run" /\ ~c.sig /\ c.todo # "" /\ c' = [c EXCEPT !.sig = TRUE] /\ Same /\ UNCHANGED <<p, u>>

Lib == Pump \/ PumpEnd \/ Flush \/ Shut \/ Chunk \/ Eof \/ Sent \/ Late
Next == Plan \/ Write \/ Read \/ CloseOut \/ Quit \/ Die \/ Lib \/ Expect \/ ReadAll \/ Send \/ Close \/ Stop \/ Leave \/ End \/ Tick \/ Outside
Spec == /\ Init /\ [][Next]_vars
        /\ WF_vars(Lib) /\ WF_vars(Tick) /\ WF_vars(Outside) /\ WF_vars(Write) /\ WF_vars(Read) /\ WF_vars(Quit) /\ WF_vars(Die) /\ WF_vars(Leave) /\ WF_vars(End)
NoClauseBroken == bad = {}
Ends == <>(u.pc = "end")
=============================================================================
