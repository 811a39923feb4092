------------------------------ MODULE MCRunner ------------------------------
(***************************************************************************)
(* Design model: the algorithm by which shellous runs, stops and reaps     *)
(* commands (Runner, PipeRunner, harvest), in an environment of children   *)
(* that exit, ignore signals, keep pipes open and are reported late, and   *)
(* of callers that cancel, time out or raise. Each step emits the          *)
(* observable events of RunnerLife; no step may break a clause of it.      *)
(*                                                                         *)
(* Time is counted in ticks; a tick passes only when no step of the        *)
(* library is due.                                                         *)
(***************************************************************************)
EXTENDS RunnerLife

CONSTANTS
  Form,      \* "await" or "with"
  Shape,     \* "one" "pipe" "sub" "subpipe"
  FailAt,    \* name of a command that cannot be launched, or ""
  Tmo,       \* timeout of command "a", or 99: none
  Ctmo,      \* cancel_timeout, in ticks
  MaxCancel, \* the caller is cancelled at most this often
  LastCancel,\* and not after this tick
  MaxT,      \* end of time
  Hold,      \* ticks for which a descendant may keep the streams of an ended command open
  Lag,       \* ticks by which an exit notice can be late
  Codes      \* exit statuses of the children

VARIABLES s, bad, r, c
vars == <<s, bad, r, c>>

NamesOf == CASE Shape = "one" -> <<"a">>
             [] Shape \in {"pipe", "sub"} -> <<"a", "b">>
             [] Shape = "subpipe" -> <<"a", "b", "d">>
N == {NamesOf[k] : k \in 1..Len(NamesOf)}
OuterOf(n) == CASE Shape = "sub" /\ n = "b" -> "a"
                [] Shape = "subpipe" /\ n = "d" -> "a"
                [] OTHER -> ""
PipeOf(n) == IF Shape \in {"pipe", "subpipe"} /\ n \in {"a", "b"} THEN "p" ELSE ""
IsPipe == Shape \in {"pipe", "subpipe"}
NoTmo == 99
TmoOfN(n) == IF n = "a" /\ Tmo # NoTmo THEN Tmo ELSE -1
Cfg == [ form |-> Form, root |-> IF IsPipe THEN "pipe" ELSE "cmd", names |-> NamesOf,
         nodes |-> [n \in N |-> [sig |-> 15, ctmo |-> Ctmo, tmo |-> TmoOfN(n), codes |-> <<0>>,
                      any |-> FALSE, catch |-> FALSE, fail |-> IF FailAt = n THEN "OSError" ELSE "",
                      outer |-> OuterOf(n), pipe |-> PipeOf(n), hold |-> Hold, eb |-> ""]],
         io |-> FALSE, setup |-> "", lost |-> "", aud |-> TRUE, usig |-> 0, slack |-> 3 ]

InnerN(n) == {m \in N : OuterOf(m) = n}
StagesN == {m \in N : PipeOf(m) # ""}
RootN == "a"
Stage(n) == PipeOf(n) # ""

\* --- emitting events ------------------------------------------------------
RECURSIVE Run(_, _)
Run(st, es) ==
  IF es = <<>> THEN [s |-> st, b |-> {}]
  ELSE LET e == Head(es) x == Run(Upd(st, e), Tail(es))
       IN [s |-> x.s, b |-> Guard(st, e) \cup x.b]
Do(es) == LET x == Run(s, es) IN s' = x.s /\ bad' = bad \cup x.b

T == s.t
EvAud(n, ph, f, sg, rc, cc) == [k |-> "aud", t |-> T, n |-> n, ph |-> ph, f |-> f, s |-> sg, rc |-> rc, c |-> cc, x |-> FALSE]
EvSpawn(n) == [k |-> "spawn", t |-> T, n |-> n]
EvSig(n, g) == [k |-> "sig", t |-> T, n |-> n, sig |-> g]
EvExit(n, code) == [k |-> "exit", t |-> T, n |-> n, code |-> code]
EvReap(n, code) == [k |-> "reap", t |-> T, n |-> n, code |-> code]
EvStolen(n) == [k |-> "stolen", t |-> T, n |-> n]
EvEnd(out, code, rc) ==
  [k |-> "end", t |-> T, out |-> out, code |-> code, rc |-> rc, eb |-> "-",
   alive |-> Cardinality({m \in N : s.n[m].st = "run"}),
   zomb |-> Cardinality({m \in N : s.n[m].st = "exited"})]

\* The status the library knows.
Rc(n) == IF ~r[n].told THEN NoCode
         ELSE IF s.n[n].stolen /\ s.n[n].ls # 0 THEN -s.n[n].ls ELSE IF s.n[n].stolen THEN 255 ELSE s.n[n].code
RcOrCanc(n) == IF s.n[n].st = "none" /\ r[n].canc THEN CancelledCode ELSE Rc(n)

\* Sending signal g to n: what the library and then the child do.
SigSeqs(n, g, cc) ==
  LET a == EvAud(n, "signal", "", g, Rc(n), cc) IN
  IF s.n[n].st = "run"
  THEN IF g = KILL THEN {<<a, EvSig(n, g), EvExit(n, -9)>>}
       ELSE {<<a, EvSig(n, g)>>, <<a, EvSig(n, g), EvExit(n, -g)>>, <<a, EvSig(n, g), EvExit(n, 0)>>}
  ELSE IF s.n[n].st = "exited" THEN {<<a, EvStolen(n)>>}
  ELSE {<<a>>}

\* --- initial state --------------------------------------------------------
R0 == [pc |-> "off", pend |-> FALSE, canc |-> FALSE, tmd |-> FALSE, tm |-> -1, dl |-> -1,
       exc |-> "", io |-> TRUE, told |-> FALSE, early |-> FALSE, out |-> "", xt |-> -1, tasks |-> TRUE]
Init ==
  /\ s = Init0(Cfg) /\ bad = {}
  /\ r = [n \in N |-> [R0 EXCEPT !.pc = IF n = RootN \/ Stage(n) THEN "start" ELSE "off"]]
  /\ c = [pc |-> IF ~IsPipe THEN "-" ELSE IF Form = "with" THEN "setup" ELSE "run",
          pend |-> FALSE, canc |-> FALSE, exc |-> ""]

\* Cancelling the task of an unfinished node.
Cancelled1(x) == IF x.pc = "done" THEN x ELSE [x EXCEPT !.pend = TRUE]
\* r with node n replaced by x and the nodes of S cancelled.
Put(n, x, S) == [m \in N |-> IF m = n THEN x ELSE IF m \in S THEN Cancelled1(r[m]) ELSE r[m]]

\* --- steps of one Runner ----------------------------------------------------
Start(n) ==
  /\ r[n].pc = "start"
  /\ Do(<<EvAud(n, "start", "", 0, NoCode, FALSE)>>)
  /\ r' = [r EXCEPT ![n].pc = "spawn"] /\ UNCHANGED c

\* What the task of node n ends with.
OutEarly(n, canc) == IF Stage(n) /\ canc THEN "RE" ELSE "C"
Out(n, x) ==
  IF x.canc /\ x.tmd THEN "T"
  ELSE IF x.canc THEN (IF Stage(n) THEN "RE" ELSE "C")
  ELSE IF x.exc # "" THEN x.exc
  ELSE IF Rc(n) # 0 THEN "RE" ELSE "ok"

Spawn(n) ==
  LET x == r[n] IN
  /\ x.pc = "spawn"
  /\ IF x.pend
     THEN /\ Do(<<EvAud(n, "stop", "CancelledError", 0, CancelledCode, TRUE)>>)
          /\ r' = [r EXCEPT ![n] = [x EXCEPT !.pc = "done", !.pend = FALSE, !.canc = TRUE, !.out = OutEarly(n, TRUE)]]
     ELSE IF FailAt = n
     THEN /\ Do(<<EvAud(n, "stop", "OSError", 0, NoCode, FALSE)>>)
          /\ r' = [r EXCEPT ![n] = [x EXCEPT !.pc = "done", !.out = "OSError"]]
     ELSE /\ Do(<<EvSpawn(n)>>)
          /\ r' = [r EXCEPT ![n] = [x EXCEPT !.pc = "launching"]]
  /\ UNCHANGED c

\* The launch is never interrupted; a cancellation that came meanwhile is acted upon now.
Launched(n) ==
  LET x == r[n] IN
  /\ x.pc = "launching"
  /\ UNCHANGED <<s, bad, c>>
  /\ IF x.pend
     THEN r' = [r EXCEPT ![n] = [x EXCEPT !.pc = "kill", !.pend = FALSE, !.canc = TRUE, !.early = TRUE, !.tasks = FALSE]]
     ELSE r' = [m \in N |->
                 IF m = n THEN [x EXCEPT !.pc = IF n = RootN /\ ~IsPipe /\ Form = "with" THEN "enter" ELSE "wait",
                                         !.tm = IF TmoOfN(n) >= 0 /\ (x.io \/ ~x.told) THEN T + TmoOfN(n) ELSE -1]
                 ELSE IF m \in InnerN(n) THEN [r[m] EXCEPT !.pc = "start"] ELSE r[m]]

Enter(n) ==
  /\ r[n].pc = "enter"
  /\ Do(<<[k |-> "enter", t |-> T]>>)
  /\ r' = [r EXCEPT ![n].pc = "body"] /\ UNCHANGED c

\* The caller's own block: it ends, raises, or is cancelled.
BodyEnds(n) ==
  /\ r[n].pc = "body" /\ ~r[n].pend
  /\ \/ /\ Do(<<[k |-> "leave", t |-> T]>>)
        /\ r' = [r EXCEPT ![n].pc = "wait"]
     \/ /\ Do(<<[k |-> "body", t |-> T, x |-> "Body"]>>)
        /\ r' = [r EXCEPT ![n].pc = "kill", ![n].exc = "Body"]
  /\ UNCHANGED c
BodyCancelled(n) ==
  /\ r[n].pc = "body" /\ r[n].pend
  /\ r' = [r EXCEPT ![n].pc = "kill", ![n].canc = TRUE, ![n].pend = FALSE, ![n].tm = -1]
  /\ UNCHANGED <<s, bad, c>>

InnerDone(n) == \A m \in InnerN(n) : r[m].pc = "done"
InnerExc(n) == {r[m].out : m \in {m \in InnerN(n) : r[m].pc = "done" /\ r[m].out \notin {"ok", "C"}}}
AllDone(n) == r[n].told /\ ~r[n].io /\ InnerDone(n)

\* harvest(all tasks). Cancelling its tasks cancels the waiter, which stops the timer.
WaitWakes(n) == r[n].pc = "wait" /\ (r[n].pend \/ InnerExc(n) # {} \/ AllDone(n))
Wait(n) ==
  LET x == r[n] IN
  /\ WaitWakes(n) /\ UNCHANGED <<s, bad, c>>
  /\ IF x.pend
     THEN r' = Put(n, [x EXCEPT !.pc = "drain", !.tm = -1, !.pend = FALSE, !.canc = TRUE, !.io = FALSE, !.tasks = FALSE], InnerN(n))
     ELSE IF InnerExc(n) # {}
     THEN r' = Put(n, [x EXCEPT !.pc = "drain", !.tm = -1, !.io = FALSE, !.tasks = FALSE, !.exc = CHOOSE e \in InnerExc(n) : TRUE], InnerN(n))
     ELSE r' = Put(n, [x EXCEPT !.pc = "close"], {})

\* harvest has cancelled its tasks and waits for all of them, whatever comes.
Drain(n) ==
  /\ r[n].pc = "drain" /\ UNCHANGED <<s, bad, c>>
  /\ \/ /\ r[n].pend
        /\ r' = [r EXCEPT ![n].pend = FALSE, ![n].canc = TRUE, ![n].tm = -1]
     \/ /\ ~r[n].pend /\ InnerDone(n)
        /\ r' = [r EXCEPT ![n].pc = "kill", ![n].tm = IF r[n].canc THEN -1 ELSE @]

\* _kill: the first signal.
KillStart(n) ==
  LET x == r[n] y == [x EXCEPT !.pc = IF x.tasks THEN "killT" ELSE "killA", !.dl = T + Ctmo, !.tm = -1] IN
  /\ x.pc = "kill" /\ UNCHANGED c
  /\ IF x.told THEN /\ r' = [r EXCEPT ![n] = y] /\ UNCHANGED <<s, bad>>
     ELSE /\ r' = [r EXCEPT ![n] = y]
          /\ \E es \in SigSeqs(n, 15, x.canc) : Do(es)

\* _kill: waiting for the tasks, for at most cancel_timeout.
KillTWakes(n) == r[n].pc = "killT" /\ (r[n].pend \/ InnerExc(n) # {} \/ AllDone(n) \/ T >= r[n].dl)
KillT(n) ==
  LET x == r[n] IN
  /\ KillTWakes(n) /\ UNCHANGED <<s, bad, c>>
  /\ IF AllDone(n) /\ ~x.pend /\ InnerExc(n) = {} THEN r' = [r EXCEPT ![n].pc = "close"]
     ELSE r' = Put(n, [x EXCEPT !.pc = "drain2", !.io = FALSE, !.pend = FALSE, !.canc = @ \/ x.pend, !.tm = -1], InnerN(n))
Drain2(n) ==
  /\ r[n].pc = "drain2" /\ UNCHANGED <<s, bad, c>>
  /\ \/ /\ r[n].pend
        /\ r' = [r EXCEPT ![n].pend = FALSE, ![n].canc = TRUE, ![n].tm = -1]
     \/ /\ ~r[n].pend /\ InnerDone(n)
        /\ r' = [r EXCEPT ![n].pc = "killW"]

KillAWakes(n) == r[n].pc = "killA" /\ (r[n].pend \/ r[n].told \/ T >= r[n].dl)
KillA(n) ==
  LET x == r[n] IN
  /\ KillAWakes(n) /\ UNCHANGED <<s, bad, c>>
  /\ IF x.pend THEN r' = [r EXCEPT ![n].pc = "killW", ![n].pend = FALSE, ![n].canc = TRUE, ![n].tm = -1]
     ELSE IF x.told THEN r' = [r EXCEPT ![n].pc = "close"]
     ELSE r' = [r EXCEPT ![n].pc = "killW"]

\* _kill_wait: SIGKILL, and wait however often cancelled.
KillW(n) ==
  LET x == r[n] IN
  /\ x.pc = "killW" /\ UNCHANGED c
  /\ IF x.told THEN r' = [r EXCEPT ![n].pc = "close"] /\ UNCHANGED <<s, bad>>
     ELSE /\ r' = [r EXCEPT ![n].pc = "killX"]
          /\ \E es \in SigSeqs(n, KILL, x.canc) : Do(es)
KillX(n) ==
  LET x == r[n] IN
  /\ x.pc = "killX" /\ UNCHANGED <<s, bad, c>>
  /\ \/ x.pend /\ r' = [r EXCEPT ![n].pend = FALSE, ![n].canc = TRUE, ![n].tm = -1]
     \/ ~x.pend /\ x.told /\ r' = [r EXCEPT ![n].pc = "close"]

\* A cancellation may still arrive while the transport is being closed.
Close(n) ==
  LET x == r[n] y == [x EXCEPT !.canc = @ \/ x.pend, !.pend = FALSE, !.tm = -1] IN
  /\ x.pc = "close" /\ UNCHANGED c
  /\ Do(<<EvAud(n, "stop", IF x.early THEN "CancelledError" ELSE "", 0, RcOrCanc(n), y.canc)>>)
  /\ r' = [r EXCEPT ![n] = [y EXCEPT !.pc = "done", !.out = IF x.early THEN OutEarly(n, y.canc) ELSE Out(n, y)]]

\* The command's own timeout.
Timer(n) ==
  /\ r[n].tm >= 0 /\ T >= r[n].tm /\ r[n].pc \in {"body", "wait", "drain", "kill", "killT", "drain2", "killA", "killW", "killX"}
  /\ r' = [r EXCEPT ![n].tm = -1, ![n].tmd = TRUE, ![n].pend = TRUE]
  /\ UNCHANGED <<s, bad, c>>

\* The exit notice; with the streams closed as well, the command is over and its timer stopped.
Reap(n) ==
  /\ s.n[n].st = "exited" \/ (s.n[n].stolen /\ ~r[n].told)
  /\ Do(<<EvReap(n, IF s.n[n].stolen THEN 255 ELSE s.n[n].code)>>)
  /\ r' = [r EXCEPT ![n].told = TRUE, ![n].tm = IF r[n].io THEN @ ELSE -1] /\ UNCHANGED c

\* --- the coordinator of a pipeline ------------------------------------------
StageBad == {n \in StagesN : r[n].pc = "done" /\ r[n].out # "ok"}
StagesDone == \A n \in StagesN : r[n].pc = "done"
CancelStages == [m \in N |-> IF m \in StagesN THEN Cancelled1(r[m]) ELSE r[m]]

CSetup ==
  /\ c.pc = "setup" /\ \A n \in StagesN : r[n].pc # "start" \* tasks are created together and start before anything else
  /\ IF c.pend
     THEN c' = [c EXCEPT !.pc = "stop", !.pend = FALSE, !.canc = TRUE, !.exc = "C"] /\ r' = CancelStages /\ UNCHANGED <<s, bad>>
     ELSE IF \E n \in StageBad : r[n].out = "OSError"
     THEN c' = [c EXCEPT !.pc = "stop", !.exc = "OSError"] /\ r' = CancelStages /\ UNCHANGED <<s, bad>>
     ELSE /\ \A n \in StagesN : r[n].pc \notin {"spawn", "launching"}
          /\ Do(<<[k |-> "enter", t |-> T]>>)
          /\ c' = [c EXCEPT !.pc = "body"] /\ UNCHANGED r
CBody ==
  /\ c.pc = "body"
  /\ IF c.pend
     THEN c' = [c EXCEPT !.pc = "stop", !.pend = FALSE, !.canc = TRUE] /\ r' = CancelStages /\ UNCHANGED <<s, bad>>
     ELSE \/ /\ Do(<<[k |-> "leave", t |-> T]>>)
             /\ c' = [c EXCEPT !.pc = "run"] /\ UNCHANGED r
          \/ /\ Do(<<[k |-> "body", t |-> T, x |-> "Body"]>>)
             /\ c' = [c EXCEPT !.pc = "stop", !.exc = "Body"] /\ r' = CancelStages
CRun ==
  /\ c.pc = "run" /\ \A n \in StagesN : r[n].pc # "start"
  /\ UNCHANGED <<s, bad>>
  /\ \/ c.pend /\ c' = [c EXCEPT !.pc = "stop", !.pend = FALSE, !.canc = TRUE] /\ r' = CancelStages
     \/ ~c.pend /\ StageBad # {} /\ c' = [c EXCEPT !.pc = "stop"] /\ r' = CancelStages
     \/ ~c.pend /\ StageBad = {} /\ StagesDone /\ c' = [c EXCEPT !.pc = "fin"] /\ UNCHANGED r
CStop ==
  /\ c.pc = "stop" /\ UNCHANGED <<s, bad, r>>
  /\ \/ c.pend /\ c' = [c EXCEPT !.pend = FALSE, !.canc = TRUE]
     \/ ~c.pend /\ StagesDone /\ c' = [c EXCEPT !.pc = "fin"]

\* The status of the pipeline: see convert_result_list.
Other == SelectSeq(NamesOf, LAMBDA n : Stage(n) /\ r[n].out \in {"OSError", "T"})
Own == SelectSeq(NamesOf, LAMBDA n : Stage(n) /\ ~r[n].canc /\ RcOrCanc(n) # 0)
CFin ==
  /\ c.pc = "fin" /\ ~s.over
  /\ LET out == IF c.exc \in {"OSError"} \/ (c.exc = "Body" /\ ~c.canc) THEN c.exc
                ELSE IF c.exc = "C" THEN "Cancelled"
                ELSE IF Other # <<>> THEN (IF r[Other[1]].out = "T" THEN "Timeout" ELSE r[Other[1]].out)
                ELSE IF c.canc THEN "Cancelled"
                ELSE IF Own # <<>> THEN "ResultError" ELSE "ok"
         code == IF out = "ResultError" THEN RcOrCanc(Own[1]) ELSE NoCode
     IN Do(<<EvEnd(out, code, IF out = "ResultError" THEN "F" ELSE "?")>>)
  /\ UNCHANGED <<r, c>>

\* The end of a single command.
Fin ==
  /\ ~IsPipe /\ r[RootN].pc = "done" /\ ~s.over
  /\ LET o == r[RootN].out
         out == CASE o = "C" -> "Cancelled" [] o = "T" -> "Timeout" [] o = "RE" -> "ResultError" [] OTHER -> o
     IN Do(<<EvEnd(out, IF out = "ResultError" /\ r[RootN].exc = "" THEN Rc(RootN) ELSE NoCode, IF out = "ResultError" THEN "F" ELSE "?")>>)
  /\ UNCHANGED <<r, c>>

\* --- environment --------------------------------------------------------------
Exit(n, code) ==
  /\ s.n[n].st = "run"
  /\ Do(<<EvExit(n, code)>>)
  /\ r' = [r EXCEPT ![n].xt = T] /\ UNCHANGED c
IoDone(n) ==
  /\ r[n].io /\ s.n[n].st \in {"exited", "told"}
  /\ r' = [r EXCEPT ![n].io = FALSE, ![n].tm = IF r[n].told THEN -1 ELSE @] /\ UNCHANGED <<s, bad, c>>
UserCancel ==
  /\ s.nc < MaxCancel /\ ~s.over /\ T <= LastCancel
  /\ IF IsPipe THEN c.pc # "fin" ELSE r[RootN].pc # "done"
  /\ Do(<<[k |-> "cancel", t |-> T]>>)
  /\ IF IsPipe THEN c' = [c EXCEPT !.pend = TRUE] /\ UNCHANGED r
     ELSE r' = [r EXCEPT ![RootN].pend = TRUE] /\ UNCHANGED c

LibStep(n) == \/ Start(n) \/ Spawn(n) \/ Launched(n) \/ Enter(n) \/ BodyCancelled(n) \/ Wait(n) \/ Drain(n)
              \/ KillStart(n) \/ KillT(n) \/ Drain2(n) \/ KillA(n) \/ KillW(n) \/ KillX(n) \/ Close(n) \/ Timer(n)
CoStep == CSetup \/ CRun \/ CStop \/ CFin \/ (c.pc = "body" /\ c.pend /\ CBody)
Lib == (\E n \in N : LibStep(n)) \/ CoStep \/ Fin

\* The library is idle and no exit notice is overdue.
LateNotice == \E n \in N : (s.n[n].st = "exited" \/ (s.n[n].stolen /\ ~r[n].told)) /\ (r[n].xt < 0 \/ T >= r[n].xt + Lag)
HeldOpen == \E n \in N : r[n].io /\ s.n[n].st \in {"exited", "told"} /\ (r[n].xt < 0 \/ T >= r[n].xt + Hold)
Idle == ~ENABLED Lib /\ ~LateNotice /\ ~HeldOpen
Tick ==
  /\ Idle /\ T < MaxT /\ ~s.over
  /\ LET e == [k |-> "tick", t |-> T + 1] IN s' = Upd(s, e) /\ bad' = bad \cup Guard(s, e)
  /\ UNCHANGED <<r, c>>

Env == \/ \E n \in N : (\E code \in Codes : Exit(n, code)) \/ IoDone(n)
       \/ UserCancel \/ (\E n \in N : BodyEnds(n)) \/ (c.pc = "body" /\ ~c.pend /\ CBody)
Next == Lib \/ Env \/ Tick \/ (\E n \in N : Reap(n))

Spec == Init /\ [][Next]_vars /\ WF_vars(Lib) /\ WF_vars(Tick) /\ \A n \in N : WF_vars(Reap(n)) /\ WF_vars(IoDone(n))

\* --- what is checked ------------------------------------------------------------
NoClauseBroken == bad = {}
NothingLeft == s.over => \A n \in N : s.n[n].st \in {"none", "told"} /\ r[n].pc \in {"off", "done"} /\ r[n].tm < 0
\* Once cancelled, a run is over when all grace periods have passed.
Depth == IF Shape = "one" THEN 1 ELSE 2
Prompt == (s.nc > 0 /\ T > s.tc1 + Depth * Ctmo + 2 * Lag + 1) => s.over
\* A command with a timeout never lasts longer than it plus the grace periods.
Bounded == (Shape = "one" /\ Form = "await" /\ Tmo >= 0 /\ T > Tmo + Ctmo + 2 * Lag + 1 + LastCancel /\ s.n["a"].st = "run") => s.over
CancelEnds == (s.nc > 0) ~> s.over
=============================================================================
