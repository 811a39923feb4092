-------------------------------- MODULE Nest --------------------------------
(* Uses of shared command objects, nested and concurrent: every use has its *)
(* own run. Children are named by number and belong to the use that starts  *)
(* them; texts name the use that sent them.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(f) == {f[x] : x \in DOMAIN f}
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* uses: u |-> [t, o, form, st, why, called]; st: "entering" "open" "leaving" "over"
\* kids: c |-> [u, st, codes]
Init0(cfg) == [cfg |-> cfg, uses |-> [u \in {} |-> 0], kids |-> [c \in {} |-> 0], canc |-> {}]

KidsOf(s, u) == {c \in DOMAIN s.kids : s.kids[c].u = u}
Depth(o) == IF o \in {3, 4} THEN 2 ELSE 1
Owner(s, c) == IF c \in DOMAIN s.kids THEN s.kids[c].u ELSE 0
Stopping(s, u) == LET x == s.uses[u] IN x.why \notin {"", "ok"} \/ x.t \in s.canc

GSpawn(s, e) ==
  IF e.u \notin DOMAIN s.uses \/ s.uses[e.u].st # "entering" THEN {"C23.stray_child"}
  ELSE IF Cardinality(KidsOf(s, e.u)) >= Depth(s.uses[e.u].o) THEN {"C23.extra_child"} ELSE {}
GEntered(s, e) ==
  IF Cardinality(KidsOf(s, e.u)) = Depth(s.uses[e.u].o) THEN {} ELSE {"C23.no_run_of_its_own"}
\* what is read in a use comes from its own children and its own input
GLine(s, e) ==
  (IF e.c = 0 \/ Owner(s, e.c) # e.u THEN (IF e.c = 0 /\ Stopping(s, e.u) THEN {} ELSE {"C23.output_of_another"}) ELSE {})
  \cup (IF e.su \in {0, e.u} THEN {} ELSE {"C23.input_of_another"})
GGot(s, e) == IF Owner(s, e.c) = e.su THEN {} ELSE {"C23.input_of_another"}
GSig(s, e) ==
  LET u == Owner(s, e.c) IN
  IF u = 0 THEN {"C23.stray_signal"}
  ELSE IF e.sig = s.cfg.usr1 THEN (IF s.uses[u].called > 0 THEN {} ELSE {"C23.signal_of_another"})
  ELSE IF Stopping(s, u) THEN {} ELSE {"C23.signal_of_another"}
GLeft(s, e) ==
  LET x == s.uses[e.u] ks == KidsOf(s, e.u) IN
  (IF \A c \in ks : s.kids[c].st = "told" THEN {} ELSE {"C23.still_running"})
  \cup (IF e.out = "Cancelled" THEN (IF x.t \in s.canc THEN {} ELSE {"C23.outcome"})
        ELSE IF e.out = "ok" THEN (IF x.why \in {"", "ok"} THEN {} ELSE {"C23.outcome"})
        ELSE IF e.out = x.why THEN {} ELSE {"C23.outcome"})
  \cup (IF e.out # "ok" THEN {}
        ELSE (IF Range(e.toks) \subseteq ks THEN {} ELSE {"C23.result_of_another"})
             \cup (IF x.form # "with" /\ ks \ Range(e.toks) # {} THEN {"C23.result_incomplete"} ELSE {})
             \cup (IF e.code = -1 \/ \E c \in ks : e.code \in s.kids[c].codes THEN {} ELSE {"C23.result_of_another"}))
\* an exit is provoked by a signal or the end of the child's own input
Guard(s, e) ==
  CASE e.k = "spawn" -> GSpawn(s, e)
    [] e.k = "entered" -> GEntered(s, e)
    [] e.k = "line" -> GLine(s, e)
    [] e.k = "got" -> GGot(s, e)
    [] e.k = "sig" -> GSig(s, e)
    [] e.k = "left" -> GLeft(s, e)
    [] e.k = "done" -> IF e.out \in {"ok", "Body"} \/ (e.out = "Cancelled" /\ e.t \in s.canc) THEN {} ELSE {"C23.outcome"}
    [] e.k = "end" -> (IF e.alive = 0 /\ \A u \in DOMAIN s.uses : s.uses[u].st = "over" THEN {} ELSE {"C23.still_running"})
                      \cup (IF e.tasks = 0 THEN {} ELSE {"C23.leftover_task"})
    [] e.k = "hang" -> {"C23.hang"}
    [] OTHER -> {}

Upd(s, e) ==
  CASE e.k = "enter" -> [s EXCEPT !.uses = Set(@, e.u, [t |-> e.t, o |-> e.o, form |-> e.form, st |-> "entering", why |-> "", called |-> 0])]
    [] e.k = "entered" -> [s EXCEPT !.uses[e.u].st = "open"]
    [] e.k = "call" -> [s EXCEPT !.uses[e.u].called = @ + 1]
    [] e.k = "leave" -> [s EXCEPT !.uses[e.u].st = "leaving", !.uses[e.u].why = e.why]
    [] e.k = "left" -> [s EXCEPT !.uses[e.u].st = "over"]
    [] e.k = "spawn" -> [s EXCEPT !.kids = Set(@, e.c, [u |-> e.u, st |-> "run", codes |-> {}])]
    [] e.k = "exit" -> [s EXCEPT !.kids[e.c].st = "exited", !.kids[e.c].codes = {e.code}]
    [] e.k = "reap" -> [s EXCEPT !.kids[e.c].st = "told"]
    \* reaped behind the watcher's back, by a poll before a signal: the status is lost
    [] e.k = "stolen" -> [s EXCEPT !.kids[e.c].st = "told", !.kids[e.c].codes = @ \cup {255, 0 - s.cfg.usr1}]
    [] e.k = "sig" -> IF e.sig = s.cfg.usr1 /\ Owner(s, e.c) # 0 THEN [s EXCEPT !.uses[Owner(s, e.c)].called = @ - 1] ELSE s
    [] e.k = "cancel" -> [s EXCEPT !.canc = @ \cup {e.t}]
    [] OTHER -> s
=============================================================================
