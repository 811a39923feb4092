-------------------------------- MODULE Watch -------------------------------
(* The child watcher: children are handed to it on any thread; each exit is  *)
(* reported exactly once with its status, or 255 when another collected it.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* kids: c |-> [pid, st: "run" "exited" "reaped", code, who, hand: "no" "calling" "yes" "refused",
\*              told, fault, late (exit after the watcher was closed)]
Init0(cfg) == [cfg |-> cfg, kids |-> [c \in {} |-> 0], closing |-> FALSE, gone |-> FALSE]

Kid(e) == [pid |-> e.pid, st |-> "run", code |-> 0, who |-> "", hand |-> "no", told |-> 0, fault |-> FALSE, late |-> FALSE]

GTold(s, e) ==
  IF e.c \notin DOMAIN s.kids THEN {"C24.stray"}
  ELSE LET x == s.kids[e.c] IN
    (IF x.hand = "no" THEN {"C24.stray"} ELSE {})
    \cup (IF x.st = "run" THEN {"C24.early"} ELSE {})
    \cup (IF x.told > 0 THEN {"C24.twice"} ELSE {})
    \cup (IF e.same THEN {} ELSE {"C24.wrong_child"})
    \cup (IF x.st = "run" \/ e.status = (IF x.who = "thief" THEN 255 ELSE x.code) THEN {} ELSE {"C24.wrong_status"})

\* an exit that has to be reported: the child was taken over, and the watcher was open
Owed(s, c) ==
  LET x == s.kids[c] IN
  /\ x.st # "run" /\ ~x.late
  /\ x.hand = "yes" \/ x.fault
  /\ ~(x.fault /\ s.gone)

Guard(s, e) ==
  CASE e.k = "told" -> GTold(s, e)
    [] e.k = "attached" -> IF e.ex = "" \/ s.kids[e.c].fault THEN {} ELSE {"C24.refused"}
    [] e.k = "kill" -> IF s.kids[e.c].fault THEN {} ELSE {"C24.killed"}
    [] e.k = "closed" -> (IF e.fds = 0 THEN {} ELSE {"C24.leftover_descriptor"})
                         \cup (IF e.strategy = "auto" /\ e.threads > 0 THEN {"C24.leftover_thread"} ELSE {})
    [] e.k = "badclose" -> {"C24.closed_twice"}
    [] e.k = "died" -> {"C24.raised"}
    [] e.k = "hang" -> {"C24.hang"}
    [] e.k = "end" -> (IF e.threads = 0 THEN {} ELSE {"C24.leftover_thread"})
                      \cup (IF e.clean /\ \E c \in DOMAIN s.kids : Owed(s, c) /\ s.kids[c].told = 0 THEN {"C24.lost"} ELSE {})
                      \cup (IF e.clean /\ \E c \in DOMAIN s.kids : Owed(s, c) /\ s.kids[c].st = "exited" THEN {"C24.zombie"} ELSE {})
    [] OTHER -> {}

Upd(s, e) ==
  CASE e.k = "spawn" -> [s EXCEPT !.kids = Set(@, e.c, Kid(e))]
    [] e.k = "attach" -> [s EXCEPT !.kids[e.c].hand = "calling"]
    [] e.k = "attached" -> [s EXCEPT !.kids[e.c].hand = IF e.ex = "" THEN "yes" ELSE "refused"]
    [] e.k = "fault" -> [s EXCEPT !.kids[e.c].fault = TRUE]
    [] e.k = "exit" -> [s EXCEPT !.kids[e.c].st = "exited", !.kids[e.c].code = e.code, !.kids[e.c].late = s.closing]
    [] e.k = "reap" -> [s EXCEPT !.kids[e.c].st = "reaped", !.kids[e.c].who = e.who]
    [] e.k = "told" -> IF e.c \in DOMAIN s.kids THEN [s EXCEPT !.kids[e.c].told = @ + 1] ELSE s
    [] e.k = "gone" -> [s EXCEPT !.gone = TRUE]
    [] e.k = "open" -> [s EXCEPT !.closing = FALSE]
    [] e.k = "close" -> [s EXCEPT !.closing = TRUE]
    [] OTHER -> s
=============================================================================
