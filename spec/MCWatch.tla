------------------------------ MODULE MCWatch ------------------------------
(***************************************************************************)
(* Design model: the watcher's two strategies, step by step, with clients  *)
(* on threads of their own, children that exit whenever they like, another *)
(* collector, a small set of process numbers, and failing registrations.   *)
(* Every step emits events of Watch; no step may break a clause.           *)
(***************************************************************************)
EXTENDS Watch
CONSTANTS N, Strategy, Steal, Faults, Orphan, Pids

VARIABLES s, bad, cl, w, tab, reg, free, clo
vars == <<s, bad, cl, w, tab, reg, free, clo>>
K == 1..N
\* cl[c]: the client that starts child c: "spawn" "attach" "lock" "init" "open" "insert" "register" "killed" "poll" "done"
\* w: the watcher's thread: pc, ready batch, current child; th[c]: a thread per child (thread strategy)
\* tab: children in the table of pidfds; reg: those registered with epoll; free: numbers not in use
\* clo: "no" "written" "joined" "over"
Init ==
  /\ s = Init0([strategy |-> Strategy]) /\ bad = {}
  /\ cl = [c \in K |-> "spawn"]
  /\ w = [strat |-> "none", lock |-> 0, pc |-> "off", batch |-> {}, cur |-> 0, st |-> 0,
          th |-> [c \in K |-> "off"], ths |-> [c \in K |-> 0], pids |-> [p \in {} |-> 0]]
  /\ tab = {} /\ reg = {} /\ free = 1..Pids /\ clo = "no"

Emit(e) == s' = Upd(s, e) /\ bad' = bad \cup Guard(s, e)
Quiet == UNCHANGED <<s, bad>>
Kid1(c) == s.kids[c]
Go(c, pc) == cl' = [cl EXCEPT ![c] = pc]

\* --- clients -------------------------------------------------------------
Spawn(c) ==
  /\ cl[c] = "spawn" /\ free # {}
  /\ Orphan = c => \A d \in K \ {c} : cl[d] = "done" /\ s.kids[d].told > 0
  /\ LET p == CHOOSE p \in free : TRUE IN
     Emit([k |-> "spawn", c |-> c, pid |-> p]) /\ free' = free \ {p}
  /\ Go(c, "attach") /\ UNCHANGED <<w, tab, reg, clo>>
Attach(c) ==
  /\ cl[c] = "attach" /\ Emit([k |-> "attach", c |-> c])
  /\ Go(c, IF w.strat = "ready" THEN "open" ELSE "lock") /\ UNCHANGED <<w, tab, reg, free, clo>>
TakeLock(c) ==
  /\ cl[c] = "lock" /\ w.lock = 0 /\ w' = [w EXCEPT !.lock = c] /\ Go(c, "init")
  /\ Quiet /\ UNCHANGED <<tab, reg, free, clo>>
InitStrategy(c) ==
  /\ cl[c] = "init" /\ w' = [w EXCEPT !.lock = 0, !.strat = "ready", !.pc = IF Strategy = "auto" /\ w.pc = "off" THEN "wait" ELSE @]
  /\ Go(c, "open") /\ Quiet /\ UNCHANGED <<tab, reg, free, clo>>
\* pidfd_open, then the table, then epoll
Open(c) ==
  /\ Strategy = "auto" /\ cl[c] = "open" /\ Go(c, "insert") /\ Quiet /\ UNCHANGED <<w, tab, reg, free, clo>>
Insert(c) ==
  /\ cl[c] = "insert" /\ tab' = tab \cup {c} /\ Go(c, "register") /\ Quiet /\ UNCHANGED <<w, reg, free, clo>>
Register(c) ==
  /\ cl[c] = "register" /\ reg' = reg \cup {c} /\ Emit([k |-> "attached", c |-> c, ex |-> ""])
  /\ Go(c, "done") /\ UNCHANGED <<w, tab, free, clo>>
Fault(c) ==
  /\ c \in Faults /\ Strategy = "auto" /\ cl[c] = "open" /\ Emit([k |-> "fault", c |-> c])
  /\ Go(c, "kill") /\ UNCHANGED <<w, tab, reg, free, clo>>
Kill(c) ==
  /\ cl[c] = "kill" /\ Emit([k |-> "kill", c |-> c, sig |-> 9])
  /\ Go(c, "refuse") /\ UNCHANGED <<w, tab, reg, free, clo>>
Refuse(c) ==
  /\ cl[c] = "refuse" /\ Emit([k |-> "attached", c |-> c, ex |-> "OSError"])
  /\ Go(c, "poll") /\ UNCHANGED <<w, tab, reg, free, clo>>
PollDead(c) == \* the task that polls the child that was killed
  /\ cl[c] = "poll" /\ Kid1(c).st # "run"
  /\ IF Kid1(c).st = "exited"
     THEN Emit([k |-> "reap", c |-> c, who |-> "lib"]) /\ Go(c, "polled") /\ free' = free \cup {Kid1(c).pid}
     ELSE Quiet /\ Go(c, "polled") /\ UNCHANGED free
  /\ UNCHANGED <<w, tab, reg, clo>>
TellDead(c) ==
  /\ cl[c] = "polled"
  /\ Emit([k |-> "told", c |-> c, pid |-> Kid1(c).pid, same |-> TRUE, status |-> IF Kid1(c).who = "thief" THEN 255 ELSE Kid1(c).code])
  /\ Go(c, "done") /\ UNCHANGED <<w, tab, reg, free, clo>>
\* a thread per child
StartThread(c) ==
  /\ Strategy = "thread" /\ cl[c] = "open" /\ Emit([k |-> "attached", c |-> c, ex |-> ""])
  /\ w' = [w EXCEPT !.th[c] = "wait", !.pids = Set(@, Kid1(c).pid, c)] /\ Go(c, "done") /\ UNCHANGED <<tab, reg, free, clo>>
ThreadWait(c) ==
  /\ w.th[c] = "wait" /\ Kid1(c).st # "run"
  /\ IF Kid1(c).st = "exited"
     THEN Emit([k |-> "reap", c |-> c, who |-> "lib"]) /\ free' = free \cup {Kid1(c).pid}
          /\ w' = [w EXCEPT !.th[c] = "call", !.ths[c] = Kid1(c).code]
     ELSE Quiet /\ UNCHANGED free /\ w' = [w EXCEPT !.th[c] = "call", !.ths[c] = 255]
  /\ UNCHANGED <<cl, tab, reg, clo>>
ThreadCall(c) ==
  /\ w.th[c] = "call" /\ Emit([k |-> "told", c |-> c, pid |-> Kid1(c).pid, same |-> TRUE, status |-> w.ths[c]])
  /\ w' = [w EXCEPT !.th[c] = "pop"] /\ UNCHANGED <<cl, tab, reg, free, clo>>
ThreadPop(c) == \* only its own entry: the number may be another's by now
  /\ w.th[c] = "pop"
  /\ w' = [w EXCEPT !.th[c] = "off", !.pids = IF Kid1(c).pid \in DOMAIN @ /\ @[Kid1(c).pid] = c THEN [p \in DOMAIN @ \ {Kid1(c).pid} |-> @[p]] ELSE @]
  /\ Quiet /\ UNCHANGED <<cl, tab, reg, free, clo>>

\* --- the epoll thread ----------------------------------------------------------
Ready == {c \in reg : Kid1(c).st # "run"}
Poll ==
  /\ w.pc = "wait" /\ (Ready # {} \/ clo = "written")
  /\ \E B \in {Ready} : w' = [w EXCEPT !.batch = B \cup (IF clo = "written" THEN {0} ELSE {}), !.pc = "next"]
  /\ Quiet /\ UNCHANGED <<cl, tab, reg, free, clo>>
Take ==
  /\ w.pc = "next"
  /\ IF w.batch = {} THEN w' = [w EXCEPT !.pc = "wait"]
     ELSE \E c \in w.batch : w' = [w EXCEPT !.batch = @ \ {c}, !.cur = c, !.pc = IF c = 0 THEN "quit" ELSE "pop"]
  /\ Quiet /\ UNCHANGED <<cl, tab, reg, free, clo>>
Pop ==
  /\ w.pc = "pop" /\ tab' = tab \ {w.cur}
  /\ bad' = bad \cup (IF w.cur \in tab THEN {} ELSE {"C24.raised"}) /\ UNCHANGED s
  /\ w' = [w EXCEPT !.pc = "waitpid"] /\ UNCHANGED <<cl, reg, free, clo>>
WaitPid ==
  /\ w.pc = "waitpid" /\ UNCHANGED <<cl, tab, reg, clo>>
  /\ IF Kid1(w.cur).st = "exited"
     THEN Emit([k |-> "reap", c |-> w.cur, who |-> "lib"]) /\ free' = free \cup {Kid1(w.cur).pid}
          /\ w' = [w EXCEPT !.pc = "call", !.st = Kid1(w.cur).code]
     ELSE Quiet /\ UNCHANGED free /\ w' = [w EXCEPT !.pc = "call", !.st = 255]
Call ==
  /\ w.pc = "call" /\ Emit([k |-> "told", c |-> w.cur, pid |-> Kid1(w.cur).pid, same |-> TRUE, status |-> w.st])
  /\ w' = [w EXCEPT !.pc = "remove"] /\ UNCHANGED <<cl, tab, reg, free, clo>>
Remove ==
  /\ w.pc = "remove" /\ reg' = reg \ {w.cur} /\ w' = [w EXCEPT !.pc = "next"]
  /\ Quiet /\ UNCHANGED <<cl, tab, free, clo>>
Quit ==
  /\ w.pc = "quit" /\ w' = [w EXCEPT !.pc = "over"] /\ reg' = {} /\ tab' = {}
  /\ Quiet /\ UNCHANGED <<cl, free, clo>>

\* --- closing, by one who has been told of all but the orphan -----------------------
Close ==
  /\ clo = "no" /\ \A c \in K : cl[c] = "done" /\ (c = Orphan \/ s.kids[c].told > 0)
  /\ Emit([k |-> "close"]) /\ clo' = "written" /\ UNCHANGED <<cl, w, tab, reg, free>>
LiveThreads == (IF w.pc \in {"off", "over"} THEN 0 ELSE 1) + Cardinality({c \in K : w.th[c] # "off"})
Joined ==
  /\ clo = "written" /\ (Strategy = "auto" => w.pc = "over")
  /\ Emit([k |-> "closed", threads |-> LiveThreads, fds |-> Cardinality(reg \cup tab), strategy |-> Strategy, running |-> 0])
  /\ clo' = "joined" /\ UNCHANGED <<cl, w, tab, reg, free>>
End ==
  /\ clo = "joined" /\ \A c \in K : Kid1(c).st # "run" /\ w.th[c] = "off"
  /\ Emit([k |-> "end", clean |-> TRUE, threads |-> LiveThreads]) /\ clo' = "over" /\ UNCHANGED <<cl, w, tab, reg, free>>

\* --- the world -----------------------------------------------------------------------
Exit(c) ==
  /\ c \in DOMAIN s.kids /\ Kid1(c).st = "run" /\ (c = Orphan => clo \in {"no", "joined"} /\ (clo = "no" => FALSE))
  /\ Emit([k |-> "exit", c |-> c, code |-> c]) /\ UNCHANGED <<cl, w, tab, reg, free, clo>>
Thief(c) ==
  /\ Steal /\ c \in DOMAIN s.kids /\ Kid1(c).st = "exited" /\ cl[c] = "done" /\ c # Orphan
  /\ Emit([k |-> "reap", c |-> c, who |-> "thief"]) /\ UNCHANGED <<cl, w, tab, reg, free, clo>>

Client(c) == Spawn(c) \/ Attach(c) \/ TakeLock(c) \/ InitStrategy(c) \/ Open(c) \/ Insert(c) \/ Register(c)
             \/ Fault(c) \/ Kill(c) \/ Refuse(c) \/ PollDead(c) \/ TellDead(c) \/ StartThread(c)
Watcher == Poll \/ Take \/ Pop \/ WaitPid \/ Call \/ Remove \/ Quit
Thread(c) == ThreadWait(c) \/ ThreadCall(c) \/ ThreadPop(c)
Next == Watcher \/ Close \/ Joined \/ End \/ \E c \in K : Client(c) \/ Thread(c) \/ Exit(c) \/ Thief(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Watcher) /\ WF_vars(Close \/ Joined \/ End)
        /\ \A c \in K : WF_vars(Client(c)) /\ WF_vars(Thread(c)) /\ WF_vars(Exit(c))

NoClauseBroken == bad = {}
\* Every child that is started is reported, and the watcher can be closed.
Ends == <>(clo = "over")
=============================================================================
