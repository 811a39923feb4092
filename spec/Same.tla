-------------------------------- MODULE Same --------------------------------
(* Two copies of the system take the same schedule, one of them with its     *)
(* tracing switched on. What can be seen of the two is the same, step by     *)
(* step, to the end (self-composition: a property of pairs of runs).         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* st: "same" so far, "apart", or "over" (both have ended); n: steps seen
Init0(cfg) == [cfg |-> cfg, st |-> "same", n |-> 0]

Guard(s, e) ==
  CASE s.st = "apart" -> {}
    [] e.k = "both" -> IF e.a = e.b THEN {} ELSE {"C28.diverged"}
    [] e.k = "plain_only" -> {"C28.missing"}
    [] e.k = "traced_only" -> {"C28.extra"}
    [] e.k = "end" -> IF e.a = e.b THEN {} ELSE {"C28.diverged"}
    [] OTHER -> {}

Upd(s, e) ==
  IF Guard(s, e) # {} THEN [s EXCEPT !.st = "apart"]
  ELSE IF e.k = "end" /\ s.st = "same" THEN [s EXCEPT !.st = "over"]
  ELSE [s EXCEPT !.n = @ + 1]
=============================================================================
