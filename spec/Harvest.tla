------------------------------ MODULE Harvest ------------------------------
(***************************************************************************)
(* harvest() and harvest_results(): several awaitables are run as tasks;   *)
(* the call is over when all of them are.                                  *)
(*                                                                         *)
(* cfg.fn     "harvest" or "results"                                       *)
(* cfg.n      number of awaitables, numbered 1..n in argument order        *)
(* cfg.tmo    timeout in ms, NoTime if none;  cfg.ctmo  grace period in ms *)
(* cfg.finish cancel_finish: when the caller is cancelled, wait for the    *)
(*            tasks instead of cancelling them                             *)
(*                                                                         *)
(* Events (t = time in ms):                                                *)
(*   start          the call begins                                        *)
(*   tstart k       task k runs for the first time                         *)
(*   tcancel k      a cancellation reaches task k                          *)
(*   tdone k how    task k ends: "ret", "exc" (kind: "R" is one of those   *)
(*                  harvest_results raises instead of returning) or        *)
(*                  "cancelled"                                            *)
(*   stop           the caller is cancelled                                *)
(*   end out k res timers   the call is over:                              *)
(*                  "ok", "exc" of task k, "Timeout", "Cancelled",         *)
(*                  "Runtime"; res: results, flag: the cancelled flag      *)
(*   left n         n tasks are left some time later                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoTime == 1000000000
Min2(a, b) == IF a < b THEN a ELSE b
Init0(cfg) ==
  [ cfg |-> cfg, begun |-> FALSE, over |-> FALSE, out |-> "",
    t0 |-> 0, st |-> [k \in 1..cfg.n |-> "none"], kind |-> [k \in 1..cfg.n |-> ""],
    canc |-> [k \in 1..cfg.n |-> 0],
    stop |-> NoTime, fail |-> NoTime,   \* times of the first of each
    first |-> {},                       \* tasks that failed first, or before the call began
    anyc |-> FALSE, lastc |-> NoTime,   \* some task was cancelled; when the last one was
    last |-> 0 ]

Deadline(s) == IF s.cfg.tmo = NoTime \/ ~s.begun THEN NoTime ELSE s.t0 + s.cfg.tmo
\* What ends the call early, and when.
CauseAt(s) == Min2(Min2(s.stop, s.fail), Deadline(s))
\* The caller's cancellation may be what the call reacts to (first).
ByStop(s) == s.stop < NoTime /\ s.stop = CauseAt(s)
ByFail(s) == s.fail < NoTime /\ s.fail = CauseAt(s)
ByTime(s) == Deadline(s) < NoTime /\ Deadline(s) = CauseAt(s)
OnlyStop(s) == ByStop(s) /\ ~ByFail(s) /\ ~ByTime(s)
Tasks(s) == 1..s.cfg.n
Undone(s) == {k \in Tasks(s) : s.st[k] = "run"}
Live(s) == s.begun /\ ~s.over

\* Time has passed: what should have happened by now?
GTime(s, t) ==
  IF ~Live(s) THEN {}
  ELSE (IF t > CauseAt(s) /\ ~(ByStop(s) /\ s.cfg.finish) /\ \E k \in Undone(s) : s.canc[k] = 0
        THEN {"C19.not_cancelled"} ELSE {})
       \cup (IF CauseAt(s) < NoTime /\ t > CauseAt(s) + s.cfg.ctmo THEN {"C19.grace"} ELSE {})
       \cup (IF \A k \in Tasks(s) : s.st[k] \notin {"none", "run"} /\ t > s.last THEN {"C19.late"} ELSE {})

GTCancel(s, e) ==
  IF s.over THEN IF s.out = "Runtime" THEN {} ELSE {"C19.after"}
  ELSE IF CauseAt(s) > e.t THEN {"C19.cancelled_for_nothing"}
  ELSE IF s.cfg.finish /\ OnlyStop(s) /\ e.t < s.stop + s.cfg.ctmo THEN {"C19.cancelled_not_finished"}
  ELSE {}
GTStart(s, e) ==
  IF s.over THEN {"C19.after"}
  ELSE IF CauseAt(s) < e.t /\ ~(ByStop(s) /\ s.cfg.finish) THEN {"C19.not_cancelled"} ELSE {}

\* What the call reports of task k, when it reports results.
Res(s, k) == CASE s.st[k] = "ret" -> [k |-> "v", n |-> k]
               [] s.st[k] = "exc" -> [k |-> "e", n |-> k]
               [] OTHER -> [k |-> "c", n |-> 0]
Important(s) == {k \in Tasks(s) : s.st[k] = "exc" /\ s.kind[k] = "R"}
EndOk(s, e) ==
  CASE e.out = "Runtime" -> \* the last cancellation ends a plain future at once
                            (Undone(s) # {} \/ s.lastc = e.t) /\ CauseAt(s) < NoTime /\ e.t >= CauseAt(s) + s.cfg.ctmo
    [] Undone(s) # {} -> FALSE
    [] e.out = "Cancelled" -> s.cfg.fn = "harvest" /\ s.stop < NoTime
    [] e.out = "Timeout" -> s.stop = NoTime /\ ByTime(s) /\ e.t >= Deadline(s)
    [] e.out = "exc" -> IF s.cfg.fn = "results"
                        THEN e.n \in Important(s) /\ (s.stop < NoTime \/ ~ByTime(s) \/ ByFail(s))
                        ELSE s.stop = NoTime /\ ByFail(s) /\ e.n \in s.first
    [] e.out = "ok" ->
         IF s.cfg.fn = "harvest"
         THEN s.stop = NoTime /\ s.fail = NoTime /\ e.t <= Deadline(s)
              /\ \A k \in Tasks(s) : s.st[k] \in {"ret", "cancelled"} /\ s.canc[k] = 0
         ELSE /\ e.flag = (s.stop < NoTime)
              /\ Important(s) = {}
              /\ ~(s.stop = NoTime /\ ByTime(s) /\ ~ByFail(s) /\ e.t > Deadline(s))
              /\ Len(e.res) = s.cfg.n
              /\ \A k \in Tasks(s) : e.res[k] = Res(s, k)
    [] OTHER -> FALSE
GEnd(s, e) ==
  (IF EndOk(s, e) THEN {}
   ELSE IF Undone(s) # {} /\ e.out # "Runtime" THEN {"C19.undone"} ELSE {"C19.outcome"})
  \cup (IF e.timers > 0 /\ Undone(s) = {} THEN {"C19.timer"} ELSE {})

Guard(s, e) ==
  GTime(s, e.t) \cup
  CASE e.k = "tcancel" -> GTCancel(s, e)
    [] e.k = "tstart" -> GTStart(s, e)
    [] e.k = "end" -> GEnd(s, e)
    [] e.k = "hang" -> {"C19.hang"}
    [] e.k = "left" -> IF e.n > 0 /\ s.out # "Runtime" THEN {"C19.left"} ELSE {}
    [] OTHER -> {}

Upd0(s, e) ==
  CASE e.k = "start" -> [s EXCEPT !.begun = TRUE, !.t0 = e.t,
                                  !.fail = IF s.first # {} THEN e.t ELSE NoTime]
    [] e.k = "tstart" -> [s EXCEPT !.st[e.n] = "run"]
    [] e.k = "tcancel" -> [s EXCEPT !.canc[e.n] = @ + 1, !.anyc = TRUE, !.lastc = e.t]
    [] e.k = "tdone" ->
         [s EXCEPT !.st[e.n] = e.how, !.kind[e.n] = e.kind,
                   !.fail = IF e.how = "exc" THEN Min2(@, e.t) ELSE @,
                   !.first = IF e.how = "exc" /\ ~s.anyc /\ (~s.begun \/ s.fail = NoTime \/ s.fail = e.t)
                             THEN @ \cup {e.n} ELSE @]
    [] e.k = "stop" -> [s EXCEPT !.stop = Min2(@, e.t)]
    [] e.k = "end" -> [s EXCEPT !.over = TRUE, !.out = e.out]
    [] OTHER -> s
Upd(s, e) == [Upd0(s, e) EXCEPT !.last = e.t]
=============================================================================
