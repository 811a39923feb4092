--------------------------------- MODULE Pty ---------------------------------
(* A command in a pseudo-terminal: the child's streams and session, the      *)
(* terminal's line discipline, where its output goes, and how it all ends.   *)
(* Bytes are numbers; 1000+n stands for n 'Z's, a number from 100000 on for  *)
(* a whole line of a long input.                                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

NL == 10
CR == 13
EOT == 4
INT == 3

Canon(cfg) == cfg.mode \in {"true", "cooked", "noecho"}
Echo0(cfg) == cfg.mode \in {"true", "cooked"}
Opost(cfg) == cfg.mode # "raw"
TermIn(cfg) == cfg.std[1] = "term"

\* fed: what went to the terminal, as <<byte, echoed?>>; reads: what the child's reads returned;
\* w: what the child was going to write, by destination
Init0(cfg) ==
  [cfg |-> cfg, fed |-> IF cfg.auto THEN [j \in 1..Len(cfg.input) |-> <<cfg.input[j], Echo0(cfg)>>] ELSE <<>>,
   echo |-> Echo0(cfg), echoes |-> {Echo0(cfg)}, reads |-> <<>>, wterm |-> <<>>, wout |-> <<>>, werr |-> <<>>,
   icrnl |-> Canon(cfg), facts |-> FALSE, exited |-> FALSE, canc |-> FALSE, raised |-> FALSE, sleeps |-> FALSE,
   term |-> [have |-> FALSE, d |-> <<>>], out |-> [have |-> FALSE, d |-> <<>>], err |-> [have |-> FALSE, d |-> <<>>],
   ended |-> FALSE]

(*--------------------------- the line discipline --------------------------*)
Onlcr(cfg, d) == IF Opost(cfg) THEN FoldLeft(LAMBDA a, c : a \o (IF c = NL THEN <<CR, NL>> ELSE <<c>>), <<>>, d) ELSE d
Map(s, c) == IF c = CR /\ s.icrnl THEN NL ELSE c
\* what a canonical terminal makes of the bytes fed to it
Line(s) ==
  FoldLeft(LAMBDA a, x :
      LET c == Map(s, x[1])
          e == IF x[2] THEN (IF c = INT THEN <<94, 67>> ELSE IF c = EOT THEN <<>> ELSE <<c>>) ELSE <<>>
      IN IF c = EOT THEN [a EXCEPT !.q = Append(@, a.cur), !.cur = <<>>]
         ELSE IF c = INT THEN [a EXCEPT !.sig = TRUE, !.echo = @ \o e]
         ELSE IF c = NL \/ c >= 100000 THEN [a EXCEPT !.q = Append(@, a.cur \o <<c>>), !.cur = <<>>, !.echo = @ \o e]
         ELSE [a EXCEPT !.cur = Append(@, c), !.echo = @ \o e],
    [q |-> <<>>, cur |-> <<>>, echo |-> <<>>, sig |-> FALSE], s.fed)
Flat(q) == FoldLeft(LAMBDA a, x : a \o x, <<>>, q)
Plain(s) == [j \in 1..Len(s.fed) |-> Map(s, s.fed[j][1])]

\* the reads are a prefix of what the input makes
\* when the library feeds the input itself it also ends it, and nothing comes after
GoodReads(s) ==
  LET cfg == s.cfg l == Line(s) IN
  IF ~TermIn(cfg) THEN
     /\ IsPrefix(Flat(s.reads), cfg.input)
     /\ \A j \in DOMAIN s.reads : s.reads[j] = <<>> => Flat(s.reads) = cfg.input \/ (cfg.stops /\ cfg.std[1] = "pipe")
  ELSE IF Canon(cfg) THEN
     IsPrefix(s.reads, IF cfg.auto THEN l.q \o (IF l.cur = <<>> THEN <<>> ELSE <<l.cur>>) \o <<<<>>>> ELSE l.q)
  ELSE /\ IsPrefix(Flat(s.reads), Plain(s)) /\ \A j \in DOMAIN s.reads : s.reads[j] # <<>>
\* everything fed was also read
AllRead(s) ==
  IF ~TermIn(s.cfg) THEN TRUE
  ELSE IF Canon(s.cfg) THEN Flat(s.reads) = Flat(Line(s).q) \o Line(s).cur ELSE Flat(s.reads) = Plain(s)

(*----------------------------- what comes out -----------------------------*)
\* t is an interleaving of at least lo1 of a and at least lo2 of b, from their starts
Mix(t, a, b, lo1, lo2) ==
  LET fin == FoldLeft(LAMBDA acc, c :
               [k |-> acc.k + 1,
                ps |-> {i + 1 : i \in {i \in acc.ps : i < Len(a) /\ a[i + 1] = c}}
                       \cup {i \in acc.ps : acc.k - i < Len(b) /\ b[acc.k - i + 1] = c}],
               [k |-> 0, ps |-> {0}], t).ps
  IN \E i \in fin : i >= lo1 /\ Len(t) - i >= lo2

Bulk(d) == \E j \in DOMAIN d : d[j] >= 1000
Sig(s) == Canon(s.cfg) /\ TermIn(s.cfg) /\ Line(s).sig
Old(s, dest) == IF s.cfg.std[2] = dest THEN s.cfg.outold ELSE <<>>
\* where the terminal's output must have gone; a terminal that is none of the
\* child's streams is closed once the child has started
GTerm(s, normal) ==
  IF ~s.term.have \/ Sig(s) THEN {}
  ELSE IF ~IsPrefix(Old(s, "term"), s.term.d) THEN {"C25.output"}
  ELSE LET t == SubSeq(s.term.d, Len(Old(s, "term")) + 1, Len(s.term.d))
           e == IF Canon(s.cfg) /\ TermIn(s.cfg) THEN Onlcr(s.cfg, Line(s).echo) ELSE <<>>
           w == Onlcr(s.cfg, s.wterm)
       IN IF normal THEN (IF Mix(t, e, w, IF AllRead(s) THEN Len(e) ELSE 0, IF "term" \in Range(s.cfg.std) THEN Len(w) ELSE 0) THEN {} ELSE {"C25.output"})
          ELSE IF Bulk(w) \/ Mix(t, e, w, 0, 0) THEN {} ELSE {"C25.output"}
GSide(x, old, w, normal, cl) ==
  IF ~x.have \/ (~normal /\ Bulk(w)) THEN {}
  ELSE IF normal THEN (IF x.d = old \o w THEN {} ELSE {cl})
  ELSE IF IsPrefix(x.d, old \o w) THEN {} ELSE {cl}

(*------------------------------- the session ------------------------------*)
GFacts(s, e) ==
  LET cfg == s.cfg IN
  (IF e.std = cfg.std THEN {} ELSE {"C25.streams", "C26.streams"})
  \cup (IF e.same /\ e.ctty THEN {} ELSE {"C25.controlling_terminal"})
  \cup (IF e.leader /\ e.fg THEN {} ELSE {"C25.session_leader"})
  \cup (IF e.rows = cfg.rows /\ e.cols = cfg.cols THEN {} ELSE {"C25.size"})
  \cup (IF e.echo \in s.echoes /\ e.canon = Canon(cfg) /\ e.opost = Opost(cfg) /\ e.isig = (cfg.mode # "raw")
           /\ (cfg.mode # "cbreak" => e.icrnl = (cfg.mode # "raw")) THEN {} ELSE {"C25.mode"})
  \cup (IF e.extra = 0 THEN {} ELSE {"C25.descriptor_inherited"})
GOpen(s, e) ==
  IF e.master /\ e.eof = (IF Canon(s.cfg) THEN <<EOT>> ELSE <<>>) THEN {} ELSE {"C25.open"}
GGot(s, e) == IF GoodReads([s EXCEPT !.reads = Append(@, e.d)]) THEN {} ELSE {"C25.input"}

Stopping(s) == s.canc \/ s.raised \/ s.cfg.timeout
Normal(s, out) == s.exited /\ (out = "ok" \/ (out = "ResultError" /\ ~s.cfg.piped))
Injected(f) ==
  IF f \in {"openpty", "func", "tcgetattr", "ttyname", "reader", "writer"} THEN "injected"
  ELSE IF f \in {"exec", "noexe", "outfile"} THEN "FileNotFoundError"
  ELSE IF f = "args" THEN "ValueError"
  ELSE IF f = "ctty" THEN "SubprocessError" ELSE ""
GEnded(s, e) ==
  LET cfg == s.cfg
      stops == (IF s.canc THEN {"Cancelled"} ELSE {}) \cup (IF s.raised THEN {"Body"} ELSE {})
               \cup (IF cfg.timeout /\ ~s.exited THEN {"Timeout"} ELSE IF cfg.timeout THEN {"Timeout"} ELSE {})
      code == IF Sig(s) /\ ~s.exited THEN 0 - 2 ELSE cfg.code
      want == IF code = 0 \/ cfg.form \in {"iter", "result"} THEN "ok" ELSE "ResultError"
      done == e.out = want /\ (Sig(s) \/ (s.exited /\ s.facts))
              /\ (cfg.form = "iter" \/ e.code = code)
  IN IF cfg.fault # "" /\ Injected(cfg.fault) # ""
       THEN (IF e.out = Injected(cfg.fault) \/ (s.canc /\ e.out = "Cancelled") THEN {} ELSE {"C25.outcome"})
     ELSE (IF e.out \in stops \/ (done /\ ~s.canc /\ ~s.raised) THEN {} ELSE {"C25.outcome"})
          \cup GTerm(s, Normal(s, e.out)) 
          \cup GSide(s.out, Old(s, "file"), s.wout, Normal(s, e.out), "C25.bypass")
          \cup GSide(s.err, <<>>, s.werr, Normal(s, e.out), "C25.bypass")

Guard(s, e) ==
  CASE e.k = "facts" -> GFacts(s, e)
    [] e.k = "open" -> GOpen(s, e)
    [] e.k = "got" -> GGot(s, e)
    [] e.k = "readerr" -> IF Stopping(s) THEN {} ELSE {"C25.hangup"}
    [] e.k = "echo" -> IF e.on = e.want THEN {} ELSE {"C25.echo"}
    [] e.k = "ended" -> GEnded(s, e)
    [] e.k = "hang" -> {"C25.hang"}
    [] e.k = "end" -> (IF e.fds = 0 THEN {} ELSE {"C25.still_open"})
                      \cup (IF e.foul = 0 THEN {} ELSE {"C25.closed_twice"})
                      \cup (IF e.alive = 0 THEN {} ELSE {"C25.still_running"})
                      \cup (IF e.tasks = 0 THEN {} ELSE {"C25.leftover_task"})
    [] OTHER -> {}

Will(s, e) ==
  LET dest == IF e.fd = 9 THEN "term" ELSE s.cfg.std[e.fd + 1] IN
  IF dest = "term" THEN [s EXCEPT !.wterm = @ \o e.d]
  ELSE IF e.fd = 1 THEN [s EXCEPT !.wout = @ \o e.d]
  ELSE [s EXCEPT !.werr = @ \o e.d]
Upd(s, e) ==
  CASE e.k = "facts" -> [s EXCEPT !.facts = TRUE, !.icrnl = e.icrnl]
    [] e.k = "feed" -> LET on == s.echo /\ ~e.quiet IN
                       [s EXCEPT !.fed = @ \o [j \in 1..Len(e.d) |-> <<e.d[j], on>>], !.echo = on]
    [] e.k = "echo" -> [s EXCEPT !.echo = e.want, !.echoes = @ \cup {e.want}]
    [] e.k = "got" -> [s EXCEPT !.reads = Append(@, e.d)]
    [] e.k = "will" -> Will(s, e)
    [] e.k = "exit" -> [s EXCEPT !.exited = TRUE]
    [] e.k = "cancel" -> [s EXCEPT !.canc = TRUE]
    [] e.k = "raise" -> [s EXCEPT !.raised = TRUE]
    [] e.k = "recv" -> IF e.what = "term" THEN [s EXCEPT !.term = [have |-> e.have, d |-> e.d]]
                       ELSE IF e.what = "out" THEN [s EXCEPT !.out = [have |-> e.have, d |-> e.d]]
                       ELSE [s EXCEPT !.err = [have |-> e.have, d |-> e.d]]
    [] e.k = "ended" -> [s EXCEPT !.ended = TRUE]
    [] OTHER -> s
=============================================================================
