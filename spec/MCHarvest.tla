----------------------------- MODULE MCHarvest -----------------------------
(***************************************************************************)
(* Design model: the algorithm of harvest_wait and cancel_wait with tasks  *)
(* that may finish at any time, fail, survive cancellations or linger.     *)
(* Every step emits events of Harvest; no step may break a clause.         *)
(***************************************************************************)
EXTENDS Harvest
CONSTANTS Fn, N, Tmo, Ctmo, Finish, MaxStop, MaxT

VARIABLES s, bad, w, tk
vars == <<s, bad, w, tk>>
NoTmo == 99
Cfg == [fn |-> Fn, n |-> N, tmo |-> IF Tmo = NoTmo THEN NoTime ELSE Tmo, ctmo |-> Ctmo, finish |-> Finish]
K == 1..N
\* w: pc of the waiter; woken: its wait is over; stops: cancellations of the caller so far,
\* pend: one is about to be delivered; dl: deadline of the grace period; done: what woke it saw
Init ==
  /\ s = Upd(Init0(Cfg), [k |-> "start", t |-> 0])
  /\ bad = {}
  /\ w = [pc |-> "wait", stops |-> 0, pend |-> FALSE, dl |-> NoTime, canc |-> FALSE, exp |-> FALSE,
          failed |-> 0, now |-> 0, undone |-> FALSE]
  /\ tk = [k \in K |-> [req |-> FALSE, dead |-> FALSE]]

T == w.now
Ev(e) == LET x == [t |-> T] @@ e IN s' = Upd(s, x) /\ bad' = bad \cup Guard(s, x)
Over(k) == tk[k].dead \/ s.st[k] \notin {"none", "run"}
Fails == {k \in K : s.st[k] = "exc"}
AllOver == \A k \in K : Over(k)

\* --- tasks ------------------------------------------------------------------
TStart(k) == s.st[k] = "none" /\ ~tk[k].dead /\ w.pc \notin {"fin", "end"}
             /\ UNCHANGED w
             /\ IF tk[k].req THEN tk' = [tk EXCEPT ![k].dead = TRUE, ![k].req = FALSE] /\ UNCHANGED <<s, bad>>
                ELSE Ev([k |-> "tstart", n |-> k]) /\ UNCHANGED tk
Deliver(k) == w.pc # "fin" /\ s.st[k] = "run" /\ tk[k].req /\ Ev([k |-> "tcancel", n |-> k])
              /\ tk' = [tk EXCEPT ![k].req = FALSE] /\ UNCHANGED w
\* A cancelled task may end as cancelled at any later time, any task may return or fail.
TDone(k, how, kind) ==
  /\ w.pc # "fin" /\ s.st[k] = "run" /\ ~tk[k].req
  /\ how = "cancelled" => s.canc[k] > 0
  /\ Ev([k |-> "tdone", n |-> k, how |-> how, kind |-> kind])
  /\ UNCHANGED <<w, tk>>

\* --- the caller ----------------------------------------------------------------
Stop == /\ w.pc \notin {"fin", "end"} /\ w.stops < MaxStop /\ ~w.pend
        /\ Ev([k |-> "stop"]) /\ w' = [w EXCEPT !.stops = @ + 1, !.pend = TRUE] /\ UNCHANGED tk

\* --- the waiter ------------------------------------------------------------------
Cancel(Z) == [k \in K |-> IF k \in Z /\ ~Over(k) THEN [tk[k] EXCEPT !.req = TRUE] ELSE tk[k]]
NotOver == {k \in K : ~Over(k)}
Due == w.pc = "wait" /\ (AllOver \/ Fails # {} \/ T >= Deadline(s))
First(F) == CHOOSE k \in F : \A j \in F : k <= j
Wake == \* asyncio.wait returns
  /\ Due /\ ~w.pend
  /\ LET exp == NotOver # {} /\ Fails = {} IN
     /\ w' = [w EXCEPT !.exp = exp, !.failed = IF Fails = {} THEN 0 ELSE First(Fails),
                       !.pc = IF NotOver = {} THEN "fin" ELSE "cw",
                       !.dl = T + Ctmo]
     /\ tk' = Cancel(NotOver) /\ UNCHANGED <<s, bad>>
WakeCancelled ==
  /\ w.pc = "wait" /\ w.pend
  /\ w' = [w EXCEPT !.pend = FALSE, !.canc = TRUE, !.pc = "cw", !.dl = T + Ctmo]
  /\ tk' = (IF Finish THEN tk ELSE Cancel(K))
  /\ UNCHANGED <<s, bad>>
CwCancelled == w.pc = "cw" /\ w.pend /\ w' = [w EXCEPT !.pend = FALSE, !.canc = TRUE] /\ UNCHANGED <<s, bad, tk>>
CwDone == w.pc = "cw" /\ ~w.pend /\ AllOver /\ w' = [w EXCEPT !.pc = "fin"] /\ UNCHANGED <<s, bad, tk>>
CwLate == w.pc = "cw" /\ ~w.pend /\ ~AllOver /\ T >= w.dl
          /\ w' = [w EXCEPT !.pc = "fin", !.undone = TRUE] /\ tk' = Cancel(NotOver) /\ UNCHANGED <<s, bad>>
ResOf(k) == CASE s.st[k] = "ret" -> [k |-> "v", n |-> k]
              [] s.st[k] = "exc" -> [k |-> "e", n |-> k]
              [] OTHER -> [k |-> "c", n |-> 0]
Imp == {k \in K : s.st[k] = "exc" /\ s.kind[k] = "R"}
End(out, n, flag) == Ev([k |-> "end", out |-> out, n |-> n, flag |-> flag, res |-> [k \in K |-> ResOf(k)], timers |-> 0])
Fin ==
  /\ w.pc = "fin"
  /\ w' = [w EXCEPT !.pc = "end"] /\ UNCHANGED tk
  /\ CASE w.undone -> End("Runtime", 0, FALSE)
       [] ~w.undone /\ w.canc /\ Fn = "harvest" -> End("Cancelled", 0, FALSE)
       [] ~w.undone /\ ~w.canc /\ w.exp -> End("Timeout", 0, FALSE)
       [] ~w.undone /\ ~w.canc /\ ~w.exp /\ Fn = "harvest" ->
            IF w.failed > 0 THEN End("exc", w.failed, FALSE) ELSE End("ok", 0, FALSE)
       [] OTHER -> IF Imp # {} THEN End("exc", First(Imp), FALSE) ELSE End("ok", 0, w.canc)

Lib == Wake \/ WakeCancelled \/ CwCancelled \/ CwDone \/ CwLate \/ Fin
       \/ \E k \in K : TStart(k) \/ Deliver(k)
Tick == ~ENABLED Lib /\ w.pc # "end" /\ T < MaxT /\ w' = [w EXCEPT !.now = @ + 1]
        /\ UNCHANGED <<s, bad, tk>>
Env == Stop \/ \E k \in K : TDone(k, "ret", "") \/ TDone(k, "exc", "V") \/ TDone(k, "exc", "R") \/ TDone(k, "cancelled", "")
Next == Lib \/ Env \/ Tick
Spec == Init /\ [][Next]_vars /\ WF_vars(Lib) /\ WF_vars(Tick)

NoClauseBroken == bad = {}
AllDone == s.over => (Undone(s) = {} \/ s.out = "Runtime")
\* A call whose caller is cancelled, or that has a timeout, ends.
Ends == (w.stops > 0 \/ Tmo < NoTmo) ~> (s.over \/ T = MaxT)
=============================================================================
