----------------------------- MODULE RunnerLife -----------------------------
(***************************************************************************)
(* The life of a run of shellous, as seen from outside: the caller's task  *)
(* (begin, cancel, enter, body, leave, end), the operating system (spawn,  *)
(* sig, exit, reap), the audit callback (aud), the clock (field t, in      *)
(* milliseconds) and what is left behind (snap, post).                     *)
(*                                                                         *)
(* A run is a tree of commands: a command or a pipeline, whose commands    *)
(* may have inner commands and pipelines (process substitution).           *)
(*                                                                         *)
(* Guard(s, e) is the set of clauses that event e breaks in state s.       *)
(* Upd(s, e) is the state after e. A clause is named after the property    *)
(* it decides. The operators are used by the design model (MCRunner),      *)
(* whose next-state relation they are, and by the trace specification      *)
(* (TLife), which runs recorded executions through them.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

KILL == 9
None == -1
NoCode == -9999
CancelledCode == -1000

(* cfg.form   "await" "coro" "with" "iter" "prompt"                        *)
(* cfg.root   "cmd" or "pipe"                                              *)
(* cfg.names  sequence of node names, pipeline stages in order             *)
(* cfg.nodes  name -> [sig, ctmo, tmo, codes, any, catch, fail, outer,     *)
(*                     pipe, res]                                          *)
(* cfg.setup  "" or the error that the pipeline's own set-up must meet     *)
(* cfg.lost   "" or the error that the set-up of an inner pipeline meets    *)
(* cfg.io     TRUE when I/O errors of the pumps are possible               *)

Names(cfg) == {cfg.names[k] : k \in 1..Len(cfg.names)}
Node(cfg, n) == cfg.nodes[n]
Inner(cfg, n) == {m \in Names(cfg) : cfg.nodes[m].outer = n}
Roots(cfg) == {m \in Names(cfg) : cfg.nodes[m].outer = ""}
Stages(cfg, p) == {m \in Names(cfg) : cfg.nodes[m].pipe = p}
MaxCtmo(cfg) == LET S == {cfg.nodes[m].ctmo : m \in Names(cfg)}
                IN CHOOSE x \in S : \A y \in S : x >= y

Init0(cfg) ==
  [ cfg |-> cfg, t |-> 0, nc |-> 0, tc |-> None, tc1 |-> None, body |-> "", tb |-> None, ent |-> FALSE,
    left |-> FALSE, over |-> FALSE, out |-> "", call |-> "", tf |-> None, lost |-> FALSE, ar |-> FALSE,
    n |-> [m \in Names(cfg) |->
            [ st |-> "none", code |-> NoCode, tt |-> None, stolen |-> FALSE,
              ts |-> None, g |-> None, gs |-> 0, kt |-> None, ls |-> 0,
              usr |-> FALSE, own |-> TRUE, rc |-> NoCode,
              aud |-> "no", fail |-> "", pend |-> 0, canc |-> FALSE, tstop |-> None ]] ]

--------------------------------------------------------------------------
(* Derived notions.                                                        *)

\* An exit status the command accepts.
Accepts(nd, code) == nd.any \/ \E k \in 1..Len(nd.codes) : nd.codes[k] = code

\* Node m's run is over and was possibly / certainly a failure in its own right.
Failed(s, m) == LET x == s.n[m] IN
  x.aud = "off" /\ (x.fail # "" \/ ~Accepts(s.cfg.nodes[m], x.rc) \/ x.canc)
FailedSure(s, m) == LET x == s.n[m] nd == s.cfg.nodes[m] IN
  x.aud = "off" /\ \/ x.fail \notin {"", "CancelledError"}
                   \/ x.fail = "" /\ ~Accepts(nd, x.rc)
                   \/ x.canc /\ ~nd.catch

\* It ended with a status that a pipeline might not accept.
NonZero(s, m) == s.n[m].aud = "off" /\ s.cfg.nodes[m].pipe # "" /\ s.n[m].rc # 0

RECURSIVE Above(_, _)
Above(cfg, m) == LET o == cfg.nodes[m].outer IN IF o = "" THEN {} ELSE {o} \cup Above(cfg, o)

\* Node m's timer has certainly / possibly fired by time t. Somebody who still
\* holds the captured streams of an ended command (hold) keeps it running.
TmoMaybe(s, m, t) == LET d == s.cfg.nodes[m].tmo x == s.n[m] IN
  /\ d >= 0 /\ x.ts >= 0 /\ t >= x.ts + d /\ (x.tt < 0 \/ x.tt + s.cfg.nodes[m].hold >= x.ts + d)
  /\ x.g < 0 \/ x.g >= x.ts + d  \* no timer once it is being stopped
\* It is uncertain when something else was stopping the command by then.
TmoSure(s, m, t) == LET d == s.cfg.nodes[m].tmo x == s.n[m] f == x.ts + d IN
  /\ d >= 0 /\ x.ts >= 0 /\ t > f /\ (x.tt < 0 \/ x.tt > f)
  /\ s.tc1 < 0 \/ s.tc1 > f
  /\ s.tb < 0 \/ s.tb > f
  /\ x.g < 0 \/ x.g >= f
  /\ \A k \in Names(s.cfg) : k # m /\ s.n[k].tstop >= 0 => s.n[k].tstop > f \/ ~Failed(s, k)

\* Is the failure of sub-runs acted upon at once where node n lives?
Watching(s, n) == s.cfg.form \in {"await", "coro"} \/ s.left \/ s.cfg.nodes[n].outer # ""

InnerOver(s, n) == \A m \in Inner(s.cfg, n) : s.n[m].aud # "on"

\* The stage of the pipeline q (a sequence of nodes; of one node for a command)
\* that its status comes from: the first that failed by itself.
Blame(s, q) ==
  LET own == {k \in 1..Len(q) : ~s.n[q[k]].canc /\ s.n[q[k]].rc # 0}
      quiet == {k \in 1..Len(q) : ~s.n[q[k]].canc}
  IN IF own # {} THEN q[CHOOSE k \in own : \A j \in own : k <= j]
     ELSE IF quiet # {} THEN q[CHOOSE k \in quiet : \A j \in quiet : k >= j]
     ELSE q[Len(q)]
Last(q) == q[Len(q)]

\* The pipeline an inner node belongs to, as a sequence.
GroupOf(s, m) == IF s.cfg.nodes[m].pipe = "" THEN <<m>>
                 ELSE SelectSeq(s.cfg.names, LAMBDA k : s.cfg.nodes[k].pipe = s.cfg.nodes[m].pipe)
\* An inner command or pipeline has certainly ended as a failure of its own.
GroupFailed(s, q) ==
  /\ \A k \in 1..Len(q) : s.n[q[k]].aud = "off"
  /\ \/ \E k \in 1..Len(q) : s.n[q[k]].fail \notin {"", "CancelledError"}
     \/ LET b == Blame(s, q) IN
        /\ ~s.n[b].canc /\ ~Accepts(s.cfg.nodes[Last(q)], s.n[b].rc)
        /\ \A k \in 1..Len(q) : s.n[q[k]].fail = ""
\* An inner run of n has certainly / possibly failed by itself.
InnerSure(s, n) == \E m \in Inner(s.cfg, n) : GroupFailed(s, GroupOf(s, m))

\* An inner command gets the grace periods of the commands it feeds: they are
\* told to stop first, and it is told when they have not ended by then.
RECURSIVE Delay(_, _)
Delay(cfg, n) == LET o == cfg.nodes[n].outer IN
  IF o = "" THEN 0 ELSE cfg.nodes[o].ctmo + Delay(cfg, o)

\* Something other than the state of the child itself asks for a signal to n.
Cause(s, n, t) ==
  \/ s.nc > 0
  \/ s.body # ""
  \/ s.lost
  \/ s.ar
  \/ s.cfg.io
  \/ \E m \in Names(s.cfg) : TmoMaybe(s, m, t)
  \/ \E m \in Names(s.cfg) \ {n} : Failed(s, m)
  \/ \E m \in Names(s.cfg) : InnerSure(s, m)

\* More than one thing asks for n to be stopped, or the grace period of the
\* command it feeds is over.
Again(s, n, t) ==
  \/ s.ar
  \/ 2 <= s.nc + (IF s.body # "" THEN 1 ELSE 0) + (IF s.lost THEN 1 ELSE 0)
          + Cardinality({m \in Names(s.cfg) : TmoMaybe(s, m, t)})
          + Cardinality({m \in Names(s.cfg) \ {n} : (Failed(s, m) \/ NonZero(s, m)) /\ ~s.n[m].canc})
  \/ LET o == s.cfg.nodes[n].outer IN o # "" /\
       LET c == s.cfg.nodes[o].ctmo IN
       \/ s.tc1 >= 0 /\ t >= s.tc1 + c
       \/ s.tb >= 0 /\ t >= s.tb + c
       \/ s.n[o].g >= 0 /\ t >= s.n[o].g + c

\* Reasons why the live child n must have been told to stop before time moves.
Reasons(s, n, t) ==
  (IF s.nc > 0 /\ t > s.tc1 + Delay(s.cfg, n) THEN {"C04.no_signal_after_cancel"} ELSE {})
  \cup (IF s.body # "" /\ t > s.tb + Delay(s.cfg, n) THEN {"C04.no_signal_after_body"} ELSE {})
  \cup (IF TmoSure(s, n, t) THEN {"C06.no_signal_after_timeout"} ELSE {})
  \cup (IF Watching(s, n) /\ s.cfg.nodes[n].pipe # ""
           /\ \E m \in Stages(s.cfg, s.cfg.nodes[n].pipe) \ {n} : FailedSure(s, m)
        THEN {"C13.rest_not_stopped"} ELSE {})
  \cup (IF Watching(s, n) /\ s.cfg.nodes[n].pipe # ""
           /\ \E m \in Stages(s.cfg, s.cfg.nodes[n].pipe) \ {n} : s.n[m].fail # ""
        THEN {"C27.rest_not_stopped"} ELSE {})
  \cup (IF Watching(s, n) /\ s.lost THEN {"C27.rest_not_stopped"} ELSE {})
  \cup (IF (Watching(s, n) \/ s.n[n].ts < 0) /\ InnerSure(s, n)
        THEN {"C14.rest_not_stopped"} ELSE {})

\* Obligations that must have been met when the clock moves on to t.
Overdue(s, t) ==
  IF t = s.t THEN {} ELSE
  UNION { LET x == s.n[m] nd == s.cfg.nodes[m] IN
          (IF x.st = "run" /\ x.aud = "on" /\ x.g < 0 /\ InnerOver(s, m)
           THEN Reasons(s, m, t) ELSE {})
          \cup
          (IF x.st = "run" /\ x.g >= 0 /\ x.gs # KILL /\ x.kt < 0 /\ t > x.g + nd.ctmo /\ InnerOver(s, m)
           THEN {"C04.no_kill"} ELSE {})
          \cup
          (IF x.pend # 0 /\ x.st = "run" THEN {"C18.signal_not_sent"} ELSE {})
        : m \in Names(s.cfg) }

--------------------------------------------------------------------------
(* One operator per event kind.                                            *)

GSpawn(s, e) ==
  LET x == s.n[e.n] IN
  (IF x.st # "none" THEN {"C01.spawned_twice"} ELSE {})
  \cup (IF s.over THEN {"C01.spawn_after_end"} ELSE {})
  \cup (IF x.aud # "on" THEN {"C18.spawn_before_start"} ELSE {})
  \cup (IF s.cfg.nodes[e.n].fail # "" \/ s.cfg.setup # "" THEN {"C27.spawned_unlaunchable"} ELSE {})

GSig(s, e) ==
  LET x == s.n[e.n] nd == s.cfg.nodes[e.n] user == s.call # "" IN
  (IF x.st \in {"none", "told"} THEN {"C04.signal_after_exit"} ELSE {})
  \cup (IF user THEN (IF e.sig # s.cfg.usig THEN {"C04.wrong_signal"} ELSE {})
        ELSE
          (IF ~Cause(s, e.n, e.t) THEN {"C04.unprovoked_signal"} ELSE {})
          \cup
          (IF x.g < 0
           THEN (IF e.sig # nd.sig THEN {"C04.wrong_first_signal"} ELSE {})
           ELSE (IF e.sig # KILL THEN {"C04.repeated_signal"} ELSE {})
                \cup
                (IF e.sig = KILL /\ e.t < x.g + nd.ctmo /\ ~s.cfg.io /\ ~Again(s, e.n, e.t)
                 THEN {"C04.early_kill"} ELSE {})))
  \cup (IF s.cfg.aud /\ x.pend # e.sig THEN {"C18.signal_not_audited"} ELSE {})
  \cup (IF s.over THEN {"C01.signal_after_end"} ELSE {})

GAud(s, e) ==
  LET x == s.n[e.n] nd == s.cfg.nodes[e.n] IN
  CASE e.ph = "start" ->
         (IF x.aud # "no" THEN {"C18.start_twice"} ELSE {})
         \cup (IF s.over THEN {"C18.after_end"} ELSE {})
    [] e.ph = "signal" ->
         (IF x.aud # "on" THEN {"C18.signal_outside"} ELSE {})
         \cup (IF x.st = "none" THEN {"C18.signal_before_launch"} ELSE {})
         \cup (IF x.pend # 0 /\ x.st = "run" THEN {"C18.signal_not_sent"} ELSE {})
    [] e.ph = "stop" ->
         (IF x.aud # "on" THEN {"C18.stop_without_start"} ELSE {})
         \cup (IF x.st \in {"run"} THEN {"C18.stop_before_exit"} ELSE {})
         \cup (IF x.st \in {"run", "exited"} THEN {"C01.left_running"} ELSE {})
         \cup (IF e.f = "" /\ x.st = "none" THEN {"C18.failure_not_named"} ELSE {})
         \cup (IF e.f \notin {"", "CancelledError"} /\ e.f # nd.fail /\ ~(e.f = "BodyError" /\ s.ar)
               THEN {"C18.wrong_failure", "C27.spurious_failure"} ELSE {})
         \cup (IF e.f = "CancelledError" /\ ~Cause(s, e.n, e.t) THEN {"C18.wrong_failure"} ELSE {})
         \cup (IF e.f = "" /\ nd.fail # "" THEN {"C18.failure_not_named"} ELSE {})
         \cup (IF e.c /\ ~Cause(s, e.n, e.t) THEN {"C05.invented_flag"} ELSE {})
         \cup (IF x.st \in {"told"} /\ e.f = "" /\
                  ~( \/ e.rc = x.code
                     \* 255 means "unknown" to the library once it has sent a signal
                     \/ (x.stolen \/ x.code = 255) /\ x.ls # 0 /\ e.rc = -x.ls
                     \/ x.stolen /\ e.rc = 255 )
               THEN {"C07.wrong_status"} ELSE {})
    [] OTHER -> {"C18.unknown_phase"}

\* The status by which node n is judged.
Code(s, n) == s.n[n].code

\* --- outcome of the call -------------------------------------------------

Launch(s) == {s.n[m].fail : m \in {m \in Names(s.cfg) : s.n[m].fail \notin {"", "CancelledError"}}}
             \cup (IF s.cfg.setup # "" THEN {s.cfg.setup} ELSE {})
             \cup (IF s.lost THEN {s.cfg.lost} ELSE {})
IoErrors == {"BrokenPipeError", "ConnectionResetError"}

\* In pipeline order, the stages of the root.
RootSeq(s) == SelectSeq(s.cfg.names, LAMBDA m : s.cfg.nodes[m].outer = "")

Blamed(s) == Blame(s, RootSeq(s))
InnerFailed(s) == \E m \in Names(s.cfg) : InnerSure(s, m)
InnerMaybe(s) == InnerFailed(s) \/ \E m \in Names(s.cfg) : s.cfg.nodes[m].outer # "" /\ Failed(s, m)
AnyZero(s) == \E m \in Names(s.cfg) : s.n[m].rc = 0 /\ ~Accepts(s.cfg.nodes[m], 0)

\* Outcomes that the state at the end of the call allows.
Plain(s) ==
  LET b == Blamed(s)
      nd == s.cfg.nodes[Last(RootSeq(s))]
      checked == s.cfg.form \in {"await", "coro", "with"}
      fails == checked /\ ~Accepts(nd, s.n[b].rc)
      lenient == AnyZero(s) \/ nd.any \/ Len(nd.codes) > 1 \/ ~Accepts(nd, 0)
  IN (IF InnerMaybe(s) THEN {"ResultError"} ELSE {})
     \cup
     (IF InnerFailed(s) /\ s.cfg.root = "cmd" THEN {}
      ELSE IF InnerFailed(s) /\ checked /\ ~lenient THEN {}
      ELSE IF InnerFailed(s) THEN {"ok"}
      ELSE IF fails THEN {"ResultError"} ELSE {"ok"})

CancOut(s) == IF s.cfg.nodes[Last(RootSeq(s))].catch
              THEN {"Cancelled", "ResultError"} ELSE {"Cancelled"}

\* A run asked to hand out incomplete results turns its timeout into a result.
TmoOf(s, m) == IF s.cfg.nodes[m].catch THEN {"ResultError", "ok"} ELSE {"Timeout"}
RootTmoMaybe(s) == \E m \in Names(s.cfg) : TmoMaybe(s, m, s.t)
\* A timeout decides the outcome unless something else failed before it did.
RootTmoSure(s) == \E m \in Names(s.cfg) :
  /\ TmoSure(s, m, s.t)
  /\ \A k \in Names(s.cfg) \ ({m} \cup Above(s.cfg, m)) :
       ~s.n[k].canc /\ (Failed(s, k) \/ NonZero(s, k)) =>
         /\ Cardinality(Above(s.cfg, m)) <= 1
         /\ IF s.cfg.nodes[m].outer = "" THEN s.n[k].tstop > s.n[m].tstop
            ELSE \A j \in 1..Len(GroupOf(s, m)) : s.n[k].tstop > s.n[GroupOf(s, m)[j]].tstop
TmoOut(s) == UNION {TmoOf(s, m) : m \in {m \in Names(s.cfg) : TmoMaybe(s, m, s.t)}}

Allowed(s) ==
  (IF s.nc > 0 THEN CancOut(s) ELSE {})
  \cup (IF RootTmoMaybe(s) THEN TmoOut(s) ELSE {})
  \cup (IF s.body = "Body" THEN {"Body"} ELSE {})
  \cup (IF s.body = "Break" THEN {"ok"} ELSE {})
  \cup Launch(s)
  \cup (IF s.ar THEN {"Body"} ELSE {})
  \cup (IF s.cfg.io THEN IoErrors ELSE {})
  \cup (IF s.nc = 0 /\ ~RootTmoSure(s) /\ s.body = "" /\ Launch(s) = {}
        THEN Plain(s) ELSE {})
  \* a launch failure inside a stage of a pipeline that fails by itself as well
  \cup (IF s.nc = 0 /\ s.cfg.setup = "" /\ s.cfg.root = "pipe" /\ (\A m \in Roots(s.cfg) : s.n[m].fail \in {"", "CancelledError"})
           /\ (AnyZero(s) \/ (s.n[Blamed(s)].rc # 0 /\ ~s.n[Blamed(s)].canc))
        THEN Plain(s) ELSE {})
  \* two inner runs failed, one of them at launch
  \cup (IF s.nc = 0 /\ s.cfg.setup = "" /\ (\A m \in Roots(s.cfg) : s.n[m].fail \in {"", "CancelledError"})
           /\ \E m \in Names(s.cfg) \ Roots(s.cfg) : s.n[m].fail = "" /\ ~s.n[m].canc /\ (Failed(s, m) \/ NonZero(s, m))
        THEN {"ResultError"} ELSE {})

GEnd(s, e) ==
  LET ok == e.out \in Allowed(s)
      b == Blamed(s)
      settled == ~InnerMaybe(s) /\ \A m \in Roots(s.cfg) : s.n[m].aud = "off" /\ s.n[m].fail = ""
  IN
  (IF e.alive > 0 THEN {"C01.alive_at_end"} ELSE {})
  \cup (IF e.zomb > 0 THEN {"C01.zombie_at_end"} ELSE {})
  \cup (IF \E m \in Names(s.cfg) : s.n[m].aud = "on" THEN {"C18.no_stop"} ELSE {})
  \cup (IF ok THEN {} ELSE
         (IF e.out = "Cancelled" /\ s.nc = 0 THEN {"C05.invented"} ELSE {})
         \cup (IF e.out # "Cancelled" /\ s.nc > 0 THEN {"C05.swallowed"} ELSE {})
         \cup (IF e.out # "Cancelled" /\ s.nc > 0 /\ Launch(s) # {} THEN {"C27.masked"} ELSE {})
         \cup (IF e.out = "Timeout" THEN {"C06.invented"} ELSE {})
         \cup (IF e.out # "Timeout" /\ RootTmoSure(s) THEN {"C06.missed"} ELSE {})
         \cup (IF s.nc = 0 /\ Launch(s) # {} THEN {"C27.masked"} ELSE {})
         \cup (IF s.nc = 0 /\ Launch(s) = {} /\ ~RootTmoSure(s) /\ e.out \notin {"Timeout", "Cancelled"}
               THEN {"C07.wrong_outcome"}
                    \cup (IF s.cfg.root = "pipe" THEN {"C13.wrong_outcome"} ELSE {})
                    \cup (IF \E m \in Names(s.cfg) : s.cfg.nodes[m].outer # "" THEN {"C14.wrong_outcome"} ELSE {})
               ELSE {}))
  \cup (IF e.code # NoCode /\ settled /\ e.code # s.n[b].rc
        THEN {"C07.wrong_code"} \cup (IF s.cfg.root = "pipe" THEN {"C13.wrong_stage"} ELSE {}) ELSE {})
  \cup (IF e.code # NoCode /\ settled /\ e.eb # "-" /\ e.eb # s.cfg.nodes[b].eb /\ ~s.n[b].canc /\ ~s.n[b].usr /\ s.n[b].rc >= 0
        THEN {"C13.wrong_error_output"} ELSE {})
  \cup (IF e.rc = "T" /\ s.nc = 0 /\ ~RootTmoMaybe(s) /\ s.body = "" THEN {"C05.invented_flag"} ELSE {})
  \cup (IF e.rc = "F" /\ (s.nc > 0 \/ (s.cfg.root = "cmd" /\ RootTmoSure(s))) /\ e.out = "ResultError" THEN {"C05.flag_missing"} ELSE {})
  \cup (IF s.tf >= 0 /\ s.cfg.form \in {"await", "coro"} /\ e.t > s.tf + MaxCtmo(s.cfg) + s.cfg.slack
        THEN {"C27.late"} ELSE {})

GSnap(s, e) ==
  (IF e.leaks > 0 THEN {"C02.leak"} ELSE {})
  \cup (IF e.gone > 0 THEN {"C02.closed_foreign"} ELSE {})
  \cup (IF e.uclosed > 0 THEN {"C02.closed_users"} ELSE {})
  \cup (IF e.uopen > 0 THEN {"C02.not_closed"} ELSE {})
  \cup (IF e.dbl > 0 THEN {"C02.closed_twice"} ELSE {})
  \cup (IF e.tasks > 0 THEN {"C03.task_left"} ELSE {})
  \cup (IF e.timers > 0 THEN {"C03.timer_left"} ELSE {})
  \cup (IF e.alive > 0 \/ e.zomb > 0 THEN {"C01.alive_after"} ELSE {})

GPost(s, e) ==
  (IF e.late > 0 THEN {"C03.late_cancel"} ELSE {})
  \cup (IF e.dbl > 0 THEN {"C02.closed_twice"} ELSE {})
  \cup (IF e.gone > 0 THEN {"C02.closed_foreign"} ELSE {})
  \cup (IF e.alive > 0 \/ e.zomb > 0 THEN {"C01.alive_after"} ELSE {})

GHang(s, e) ==
  {"C11.hang"}
  \cup (IF s.nc > 0 THEN {"C05.hang", "C01.hang"} ELSE {})
  \cup (IF s.tf >= 0 \/ s.cfg.setup # "" THEN {"C27.hang"} ELSE {})
  \cup (IF \E m \in Names(s.cfg) : TmoSure(s, m, s.t + 1) THEN {"C06.hang"} ELSE {})
  \cup (IF s.cfg.root = "pipe" THEN {"C13.hang"} ELSE {})
  \cup (IF \E m \in Names(s.cfg) : s.cfg.nodes[m].outer # "" THEN {"C14.hang"} ELSE {})

Guard(s, e) ==
  Overdue(s, e.t) \cup
  CASE e.k = "spawn" -> GSpawn(s, e)
    [] e.k = "sig" -> GSig(s, e)
    [] e.k = "aud" -> GAud(s, e)
    [] e.k = "end" -> GEnd(s, e)
    [] e.k = "snap" -> GSnap(s, e)
    [] e.k = "post" -> GPost(s, e)
    [] e.k = "hang" -> GHang(s, e)
    [] e.k = "badkill" -> {"C04.signal_to_stranger"}
    [] OTHER -> {}

SetN(s, n, x) == [s EXCEPT !.n[n] = x]

Upd1(s, e) ==
  CASE e.k = "begin" -> s
    [] e.k = "cancel" -> [s EXCEPT !.nc = @ + 1, !.tc = e.t, !.tc1 = IF @ < 0 THEN e.t ELSE @]
    [] e.k = "scarce" -> IF s.cfg.lost = "" THEN s ELSE [s EXCEPT !.lost = TRUE, !.tf = IF @ < 0 THEN e.t ELSE @]
    [] e.k = "enter" -> [s EXCEPT !.ent = TRUE]
    [] e.k = "leave" -> [s EXCEPT !.left = TRUE]
    [] e.k = "body" -> [s EXCEPT !.body = e.x, !.left = TRUE, !.tb = e.t]
    [] e.k = "call" -> [s EXCEPT !.call = e.what]
    [] e.k = "called" -> [s EXCEPT !.call = ""]
    [] e.k = "spawn" -> SetN(s, e.n, [s.n[e.n] EXCEPT !.st = "run", !.ts = e.t])
    [] e.k = "exit" -> SetN(s, e.n, [s.n[e.n] EXCEPT !.st = "exited", !.code = e.code])
    [] e.k = "reap" -> SetN(s, e.n, [s.n[e.n] EXCEPT !.st = "told", !.tt = IF @ < 0 THEN e.t ELSE @])
    [] e.k = "stolen" -> SetN(s, e.n, [s.n[e.n] EXCEPT !.st = "told", !.stolen = TRUE])
    [] e.k = "sig" ->
         LET x == s.n[e.n] y == [x EXCEPT !.pend = 0, !.own = FALSE, !.ls = IF e.sig = KILL THEN @ ELSE e.sig] IN
         IF s.call # "" THEN SetN(s, e.n, [y EXCEPT !.usr = TRUE])
         ELSE IF x.g < 0 THEN SetN(s, e.n, [y EXCEPT !.g = e.t, !.gs = e.sig])
         ELSE SetN(s, e.n, [y EXCEPT !.kt = e.t])
    [] e.k = "aud" ->
         LET x == s.n[e.n] IN
         \* e.x: the callback itself raised. Then nothing is launched, and it is
         \* a failure of the command.
         CASE e.ph = "start" /\ e.x ->
                [SetN(s, e.n, [x EXCEPT !.aud = "off", !.fail = "Body", !.tstop = e.t])
                  EXCEPT !.tf = IF @ < 0 THEN e.t ELSE @]
           [] e.ph = "start" -> SetN(s, e.n, [x EXCEPT !.aud = "on"])
           [] e.ph = "signal" ->
                [SetN(s, e.n, [x EXCEPT !.pend = e.s, !.ls = IF e.s = KILL THEN @ ELSE e.s])
                  EXCEPT !.ar = @ \/ e.x]
           [] e.ph = "stop" ->
                LET f == IF e.x \/ e.f = "BodyError" THEN "Body" ELSE e.f IN
                [SetN(s, e.n, [x EXCEPT !.aud = "off", !.fail = f, !.canc = e.c, !.rc = e.rc, !.tstop = e.t])
                  EXCEPT !.tf = IF @ < 0 /\ f \notin {"", "CancelledError"} THEN e.t ELSE @]
           [] OTHER -> s
    [] e.k = "end" -> [s EXCEPT !.over = TRUE, !.out = e.out]
    [] OTHER -> s

Upd(s, e) == [Upd1(s, e) EXCEPT !.t = e.t]
=============================================================================
