------------------------------- MODULE MCNest -------------------------------
(***************************************************************************)
(* Design model: command objects used as context managers. Every use       *)
(* starts a run of its own and puts it on a stack, that of its task and    *)
(* its object; leaving takes the run from the stack. Tasks fork, nest,     *)
(* interleave, fail and are cancelled in every order; the stacks are       *)
(* shared by all of them, as those of a context are.                       *)
(* Each step emits the events of Nest; no step may break a clause of it,   *)
(* and in the end every use is over.                                       *)
(*                                                                         *)
(* ByTask, ByObject and Last are what the design relies on.                *)
(***************************************************************************)
EXTENDS Nest

CONSTANTS Objects, MaxUses, MaxTasks, MaxCancel, Fails, Signals,
          ByTask,   \* a stack belongs to one task
          ByObject, \* ... and to one object
          Last      \* the run entered last is left first
VARIABLES s, bad, tasks, stacks, n
vars == <<s, bad, tasks, stacks, n>>
\* tasks[t]: pc, un (why it unwinds), open (its uses, innermost last), cur (use concerned), run (the run left)
Fresh == [pc |-> "idle", un |-> "", open |-> <<>>, cur |-> 0, run |-> 0]
Key(t, o) == <<IF ByTask THEN t ELSE 0, IF ByObject THEN o ELSE 0>>
Stack(k) == IF k \in DOMAIN stacks THEN stacks[k] ELSE <<>>
Cfg == [usr1 |-> 10]
\* n: uses, children, cancellations; kin: what each child is told to do; owner of a run's children is its use
Init == /\ s = Init0(Cfg) /\ bad = {} /\ tasks = <<Fresh>> /\ stacks = [k \in {} |-> <<>>]
        /\ n = [use |-> 0, kid |-> 0, canc |-> 0, sig |-> 0, told |-> [c \in {} |-> ""], end |-> FALSE]
RECURSIVE All(_, _, _)
All(st, b, es) == IF es = <<>> THEN <<st, b>>
                  ELSE All(Upd(st, Head(es)), b \cup Guard(st, Head(es)), Tail(es))
Evs(es) == LET x == All(s, bad, es) IN s' = x[1] /\ bad' = x[2]
Same == UNCHANGED <<s, bad>>
Kids(u) == {c \in DOMAIN s.kids : s.kids[c].u = u}
Gone(u) == \A c \in Kids(u) : s.kids[c].st = "told"
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o SeqOf(S \ {x})
Live(u) == {c \in Kids(u) : s.kids[c].st # "told"}
Kill(u) == LET q == SeqOf(Live(u)) IN [i \in 1..Len(q) |-> [k |-> "sig", c |-> q[i], sig |-> 15]]
Tell(S, w) == [c \in DOMAIN n.told |-> IF c \in S /\ n.told[c] # "kill" THEN w ELSE n.told[c]]
T == 1..Len(tasks)
Idle(t) == tasks[t].pc = "idle" /\ tasks[t].un = ""
Awaiting(t) == tasks[t].pc \in {"entering", "started", "leaving"}
Del(q, u) == SelectSeq(q, LAMBDA x : x # u)

Enter(t) ==
  /\ Idle(t) /\ n.use < MaxUses /\ UNCHANGED stacks
  /\ \E o \in Objects :
       /\ Evs(<<[k |-> "enter", u |-> n.use + 1, t |-> t, o |-> o, form |-> "with"]>>)
       /\ n' = [n EXCEPT !.use = @ + 1]
       /\ tasks' = [tasks EXCEPT ![t].pc = "entering", ![t].cur = n.use + 1]
Start(t) ==
  /\ tasks[t].pc = "entering" /\ UNCHANGED stacks
  /\ LET u == tasks[t].cur d == Depth(s.uses[u].o) cs == (n.kid + 1)..(n.kid + d) IN
       /\ Evs([i \in 1..d |-> [k |-> "spawn", c |-> n.kid + i, u |-> u]])
       /\ n' = [n EXCEPT !.kid = @ + d, !.told = [c \in DOMAIN n.told \cup cs |-> IF c \in cs THEN "" ELSE n.told[c]]]
       /\ tasks' = [tasks EXCEPT ![t].pc = "started"]
Entered(t) ==
  /\ tasks[t].pc = "started" /\ UNCHANGED n
  /\ LET u == tasks[t].cur k == Key(t, s.uses[u].o) IN
       /\ Evs(<<[k |-> "entered", u |-> u]>>)
       /\ stacks' = [x \in DOMAIN stacks \cup {k} |-> IF x = k THEN Append(Stack(k), u) ELSE stacks[x]]
       /\ tasks' = [tasks EXCEPT ![t].pc = "idle", ![t].open = Append(@, u)]
\* an exit may be called out of order, but not out of order for one object
Innermost(t, u) == \A i, j \in 1..Len(tasks[t].open) :
                     tasks[t].open[i] = u /\ j > i => s.uses[tasks[t].open[j]].o # s.uses[u].o
Leave(t) ==
  /\ tasks[t].pc = "idle" /\ tasks[t].open # <<>>
  /\ \E u \in Range(tasks[t].open) :
       LET k == Key(t, s.uses[u].o)
           q == Stack(k)
           r == IF q = <<>> THEN 0 ELSE IF Last THEN q[Len(q)] ELSE q[1]
           why == IF tasks[t].un = "" THEN "ok" ELSE tasks[t].un
       IN /\ IF tasks[t].un = "" THEN Innermost(t, u) ELSE u = tasks[t].open[Len(tasks[t].open)]
          /\ Evs(<<[k |-> "leave", u |-> u, why |-> why]>> \o (IF why = "ok" THEN <<>> ELSE Kill(r)))
          /\ stacks' = [stacks EXCEPT ![k] = IF q = <<>> THEN q ELSE IF Last THEN SubSeq(q, 1, Len(q) - 1) ELSE Tail(q)]
          /\ n' = [n EXCEPT !.told = Tell(Kids(r), IF why = "ok" THEN "eof" ELSE "kill")]
          /\ tasks' = [tasks EXCEPT ![t].pc = "leaving", ![t].cur = u, ![t].run = r, ![t].open = Del(@, u)]
Left(t) ==
  /\ tasks[t].pc = "leaving" /\ UNCHANGED <<n, stacks>>
  /\ LET u == tasks[t].cur r == tasks[t].run IN
       /\ Gone(r)
       /\ LET out == IF tasks[t].un = "" THEN "ok" ELSE tasks[t].un IN
            /\ Evs(<<[k |-> "left", u |-> u, out |-> out, toks |-> SeqOf(Kids(r)),
                      code |-> IF out # "ok" \/ Kids(r) = {} THEN -1 ELSE CHOOSE x \in UNION {s.kids[c].codes : c \in Kids(r)} : TRUE]>>)
            /\ tasks' = [tasks EXCEPT ![t].pc = "idle"]
Fail(t) == /\ Fails /\ Idle(t) /\ tasks[t].open # <<>> /\ Same /\ UNCHANGED <<n, stacks>>
           /\ tasks' = [tasks EXCEPT ![t].un = "Body"]
Caught(t) == /\ tasks[t].pc = "idle" /\ tasks[t].un = "Body" /\ Same /\ UNCHANGED <<n, stacks>>
             /\ tasks' = [tasks EXCEPT ![t].un = ""]
Cancel(t) ==
  /\ tasks[t].pc # "done" /\ n.canc < MaxCancel /\ UNCHANGED stacks
  /\ LET x == tasks[t] r == IF x.pc = "leaving" THEN x.run ELSE x.cur IN
       /\ Evs(<<[k |-> "cancel", t |-> t]>> \o (IF Awaiting(t) THEN Kill(r) ELSE <<>>))
       /\ n' = [n EXCEPT !.canc = @ + 1, !.told = IF Awaiting(t) THEN Tell(Kids(r), "kill") ELSE @]
       /\ tasks' = [tasks EXCEPT ![t].un = "Cancelled",
                                 ![t].pc = IF Awaiting(t) THEN "leaving" ELSE @,
                                 ![t].run = IF Awaiting(t) THEN r ELSE @]
\* the caller signals the run it holds
Signal(t) ==
  /\ Idle(t) /\ n.sig < Signals /\ UNCHANGED <<tasks, stacks>>
  /\ \E u \in Range(tasks[t].open) : \E c \in Live(u) :
       /\ Evs(<<[k |-> "call", u |-> u], [k |-> "sig", c |-> c, sig |-> 10]>>)
       /\ n' = [n EXCEPT !.sig = @ + 1]
Fork(t) == /\ Idle(t) /\ Len(tasks) < MaxTasks /\ tasks' = Append(tasks, Fresh) /\ Same /\ UNCHANGED <<n, stacks>>
Done(t) == /\ tasks[t].pc = "idle" /\ tasks[t].open = <<>> /\ tasks' = [tasks EXCEPT ![t].pc = "done"]
           /\ Evs(<<[k |-> "done", t |-> t, out |-> IF tasks[t].un = "" THEN "ok" ELSE tasks[t].un]>>) /\ UNCHANGED <<n, stacks>>
Exit(c) == /\ s.kids[c].st = "run" /\ n.told[c] # "" /\ UNCHANGED <<tasks, stacks, n>>
           /\ Evs(<<[k |-> "exit", c |-> c, code |-> IF n.told[c] = "kill" THEN -15 ELSE c]>>)
Reap(c) == s.kids[c].st = "exited" /\ Evs(<<[k |-> "reap", c |-> c]>>) /\ UNCHANGED <<tasks, stacks, n>>
End == /\ ~n.end /\ \A t \in T : tasks[t].pc = "done"
       /\ Evs(<<[k |-> "end", alive |-> Cardinality({c \in DOMAIN s.kids : s.kids[c].st # "told"}), tasks |-> 0]>>)
       /\ n' = [n EXCEPT !.end = TRUE] /\ UNCHANGED <<tasks, stacks>>

Step(t) == Enter(t) \/ Start(t) \/ Entered(t) \/ Leave(t) \/ Left(t) \/ Fail(t) \/ Caught(t) \/ Cancel(t) \/ Signal(t) \/ Fork(t) \/ Done(t)
Next == (\E t \in T : Step(t)) \/ (\E c \in DOMAIN s.kids : Exit(c) \/ Reap(c)) \/ End
Must == (\E t \in T : Start(t) \/ Entered(t) \/ Leave(t) \/ Left(t) \/ Done(t)) \/ (\E c \in DOMAIN s.kids : Exit(c) \/ Reap(c)) \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Must)
NoClauseBroken == bad = {}
AllLeft == n.end => \A k \in DOMAIN stacks : stacks[k] = <<>>
Ends == <>n.end
=============================================================================
