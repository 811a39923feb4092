-------------------------------- MODULE Values --------------------------------
(* Commands, pipelines and contexts as immutable values, and what running   *)
(* them means: a history of operations on a growing family of objects.      *)
(*                                                                           *)
(* An object is [kind |-> "ctx" | "cmd", args, env, o] or [kind |-> "pipe",  *)
(* cmds]: the program's arguments, the environment settings (a set of        *)
(* <<name, value>>) and the other options (name |-> token). After every      *)
(* operation the whole family is observed and compared.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(f) == {f[x] : x \in DOMAIN f}
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

(* -- the defaults of every option (C20: "unset options follow their default") *)
Defaults ==
  [path |-> "None", inherit_env |-> "True", input |-> "DEFAULT", input_close |-> "False",
   output |-> "DEFAULT", output_append |-> "False", output_close |-> "False",
   error |-> "DEFAULT", error_append |-> "False", error_close |-> "False",
   error_limit |-> "int:1024", encoding |-> "str:'utf-8'", _return_result |-> "False",
   _catch_cancelled_error |-> "False", exit_codes |-> "None", timeout |-> "None",
   cancel_timeout |-> "float:3.0", cancel_signal |-> "SIGTERM", alt_name |-> "None",
   pass_fds |-> "fds:[]", pass_fds_close |-> "False", _writable |-> "False",
   _start_new_session |-> "False", _preexec_fn |-> "None", pty |-> "False",
   close_fds |-> "True", audit_callback |-> "None", coerce_arg |-> "None"]
AnyCode == "codes:range(-255, 256)"

Ctx0 == [kind |-> "ctx", args |-> <<>>, env |-> {}, o |-> Defaults]
Init0(cfg) == [cfg |-> cfg, objs |-> <<Ctx0>>, sys |-> Range(cfg.env0), sinks |-> [t \in {} |-> {}],
               ran |-> {}]  \* what has run as it should

(* -- options ---------------------------------------------------------------- *)
With(o, kw) == [f \in DOMAIN o |-> IF f \in DOMAIN kw THEN kw[f] ELSE o[f]]
Keys(ps) == {p[1] : p \in ps}
\* later settings win
Merge(old, new) == {p \in old : p[1] \notin Keys(new)} \cup new
\* the pairs of a sequence; of two with the same name the later one counts
PairSet(q) == {q[k] : k \in {k \in DOMAIN q : \A j \in DOMAIN q : j > k => q[j][1] # q[k][1]}}

SetIn(c, v, close) == [c EXCEPT !.o = With(@, [input |-> v, input_close |-> close])]
SetOut(c, v, app, close) == [c EXCEPT !.o = With(@, [output |-> v, output_append |-> app, output_close |-> close])]
SetErr(c, v, app, close) == [c EXCEPT !.o = With(@, [error |-> v, error_append |-> app, error_close |-> close])]
ResultOf(c) == [c EXCEPT !.o = With(@, [_return_result |-> "True", exit_codes |-> AnyCode])]
WritableOf(c) == [c EXCEPT !.o = With(@, [_writable |-> "True"])]

(* -- arguments --------------------------------------------------------------- *)
(* A term is [ty, v, xs]: what kind of value, its text, its items.             *)
Plain == {"str", "bytes", "path", "bytearray", "memoryview", "stringio", "bytesio", "other", "obj"}
Nested == {"list", "tuple", "reversed", "enumerate", "zip"}
Refused == {"dict", "set", "frozenset", "generator", "range", "None", "Ellipsis", "keys"}
RECURSIVE Bad(_)
Bad(t) == \/ t.ty \in Refused
          \/ t.ty \in Nested /\ \E k \in DOMAIN t.xs : Bad(t.xs[k])
RECURSIVE Texts(_)
Texts(ts) == IF ts = <<>> THEN <<>>
             ELSE (IF Head(ts).ty \in Nested THEN Texts(Head(ts).xs) ELSE <<Head(ts).v>>) \o Texts(Tail(ts))
\* the arguments as the coerce_arg function in force maps them
TermsOf(c, a) == IF c.o.coerce_arg = "None" THEN a.terms ELSE a.coerced[c.o.coerce_arg]

(* -- redirection types -------------------------------------------------------- *)
StdinTypes == {"str", "bytes", "path", "bytearray", "bytesio", "stringio", "file", "int", "redirect", "reader"}
StdoutTypes == {"path", "bytearray", "bytesio", "stringio", "file", "int", "redirect", "logger", "writer"}

(* -- operations ---------------------------------------------------------------- *)
IsCmd(x) == x.kind = "cmd"
IsPipe(x) == x.kind = "pipe"
First(x, f(_)) == [x EXCEPT !.cmds = [@ EXCEPT ![1] = f(@)]]
Last(x, f(_)) == [x EXCEPT !.cmds = [@ EXCEPT ![Len(@)] = f(@)]]
CmdsOf(x) == IF IsPipe(x) THEN x.cmds ELSE <<x>>
LastOf(x) == IF IsPipe(x) THEN x.cmds[Len(x.cmds)] ELSE x

\* the exception an operation raises, "" if none
Fails(s, e) ==
  LET x == s.objs[e.on] a == e.a IN
  CASE e.op \in {"stdin", "stdout", "stderr"} ->
         IF a.v = "None" THEN "TypeError" ELSE IF a.v = "STDOUT" /\ e.op # "stderr" THEN "ValueError" ELSE ""
    [] e.op = "set" -> IF "encoding" \in DOMAIN a.kw /\ a.kw.encoding = "str:''" THEN "TypeError" ELSE a.bad
    [] e.op = "call" ->
         IF IsPipe(x) THEN (IF a.terms = <<>> THEN "" ELSE "TypeError")
         ELSE IF \E k \in DOMAIN TermsOf(x, a) : Bad(TermsOf(x, a)[k]) THEN "TypeError"
         ELSE IF x.kind = "ctx" /\ Texts(TermsOf(x, a)) = <<>> THEN "ValueError" ELSE ""
    [] e.op = "or" ->
         IF x.kind = "ctx" \/ a.ty \notin StdoutTypes THEN "TypeError" ELSE IF a.v = "STDOUT" THEN "ValueError" ELSE ""
    [] e.op = "rshift" ->
         IF x.kind = "ctx" \/ a.ty \notin StdoutTypes THEN "TypeError" ELSE IF a.v = "STDOUT" THEN "ValueError" ELSE ""
    [] e.op = "ror" ->
         IF x.kind = "ctx" \/ a.ty \notin StdinTypes THEN "TypeError" ELSE IF a.v = "STDOUT" THEN "ValueError" ELSE ""
    [] e.op = "orobj" -> IF x.kind = "ctx" \/ s.objs[a.rhs].kind = "ctx" THEN "TypeError" ELSE ""
    [] OTHER -> ""

New(s, e) ==
  LET x == s.objs[e.on] a == e.a IN
  CASE e.op = "stdin" -> IF IsPipe(x) THEN First(x, LAMBDA c : SetIn(c, a.v, a.close)) ELSE SetIn(x, a.v, a.close)
    [] e.op = "stdout" -> IF IsPipe(x) THEN Last(x, LAMBDA c : SetOut(c, a.v, a.append, a.close)) ELSE SetOut(x, a.v, a.append, a.close)
    [] e.op = "stderr" -> IF IsPipe(x) THEN Last(x, LAMBDA c : SetErr(c, a.v, a.append, a.close)) ELSE SetErr(x, a.v, a.append, a.close)
    [] e.op = "ror" -> IF IsPipe(x) THEN First(x, LAMBDA c : SetIn(c, a.v, "False")) ELSE SetIn(x, a.v, "False")
    [] e.op = "or" -> IF IsPipe(x) THEN Last(x, LAMBDA c : SetOut(c, a.v, "False", "False")) ELSE SetOut(x, a.v, "False", "False")
    [] e.op = "rshift" -> IF IsPipe(x) THEN Last(x, LAMBDA c : SetOut(c, a.v, "True", "False")) ELSE SetOut(x, a.v, "True", "False")
    [] e.op = "orobj" -> [kind |-> "pipe", cmds |-> CmdsOf(x) \o CmdsOf(s.objs[a.rhs])]
    [] e.op = "env" -> [x EXCEPT !.env = Merge(@, PairSet(a.env))]
    [] e.op = "set" -> [x EXCEPT !.o = With(@, a.kw), !.env = IF a.hasenv THEN PairSet(a.env) ELSE @]
    [] e.op = "result" -> IF IsPipe(x) THEN Last(x, ResultOf) ELSE ResultOf(x)
    [] e.op = "writable" -> IF IsPipe(x) THEN Last(x, WritableOf) ELSE WritableOf(x)
    [] e.op = "call" -> IF IsPipe(x) THEN x ELSE [x EXCEPT !.kind = "cmd", !.args = @ \o Texts(TermsOf(x, a))]
    [] e.op = "item" -> x.cmds[a.k]
    [] e.op = "ctx" -> Ctx0

(* -- observed against expected ---------------------------------------------- *)
OptDiff(o, ob) == {f \in DOMAIN o : f \in DOMAIN ob /\ ob[f] # "?" /\ ob[f] # o[f]}
LeafDiff(x, ob) ==
  IF x.kind # ob.kind THEN {"kind"}
  ELSE (IF x.args = ob.args THEN {} ELSE {"args"}) \cup (IF x.env = Range(ob.env) THEN {} ELSE {"env"}) \cup OptDiff(x.o, ob.o)
Diff(x, ob) ==
  IF x.kind # ob.kind THEN {"kind"}
  ELSE IF IsPipe(x)
    THEN IF Len(x.cmds) # Len(ob.cmds) THEN {"length"} ELSE UNION {LeafDiff(x.cmds[k], ob.cmds[k]) : k \in DOMAIN x.cmds}
    ELSE LeafDiff(x, ob)
Redirs == {"input", "input_close", "output", "output_append", "output_close", "error", "error_append", "error_close"}
\* which property a difference belongs to
Blame(d, what) ==
  (IF d # {} THEN {"C20." \o what} ELSE {})
  \cup (IF d \cap {"args", "kind", "length"} # {} THEN {"C21." \o what} ELSE {})
  \cup (IF d \cap {"env", "inherit_env"} # {} THEN {"C22." \o what} ELSE {})
  \cup (IF d \cap Redirs # {} THEN {"C26." \o what} ELSE {})
Changed(objs, obs) == UNION {Blame(Diff(objs[k], obs[k]), "changed") : k \in DOMAIN objs}

\* two objects with the same content (sig: the types of the arguments) must be equal; with different options, not
NoRedirs(x) == IF IsPipe(x) THEN [k \in DOMAIN x.cmds |-> [x.cmds[k] EXCEPT !.o = [f \in DOMAIN @ \ Redirs |-> @[f]]]]
               ELSE [x EXCEPT !.o = [f \in DOMAIN @ \ Redirs |-> @[f]]]
EqBad(objs, eq, sig) ==
  \E i, j \in DOMAIN objs : i < j /\
     (IF <<i, j>> \in eq THEN ~(IsPipe(objs[i]) <=> IsPipe(objs[j])) \/ NoRedirs(objs[i]) # NoRedirs(objs[j]) ELSE sig[i] = sig[j] /\ objs[i] = objs[j])

OpGuard(s, e) ==
  LET f == Fails(s, e) IN
  (IF e.out = (IF f = "" THEN "ok" ELSE f) THEN {}
   ELSE IF e.op = "call" THEN {"C21.refused"}
   ELSE IF e.op = "env" \/ (e.op = "set" /\ e.a.hasenv) THEN {"C22.refused", "C20.refused"}
   ELSE IF e.op \in {"set", "result", "writable"} THEN {"C20.refused"} ELSE {"C26.refused", "C20.refused"})
  \cup Changed(s.objs, e.obs)
  \cup (IF e.out = "ok" /\ f = "" THEN Blame(Diff(New(s, e), e.obs[Len(e.obs)]), "wrong") ELSE {})
  \cup (IF e.out = "ok" /\ f = "" /\ (EqBad(Append(s.objs, New(s, e)), Range(e.eq), e.sig) \/ e.hb > 0) THEN {"C20.equality"} ELSE {})
  \cup (IF e.sys = <<>> \/ Range(e.sys) = s.sys THEN {} ELSE {"C22.sysenv"})

\* what differs is reported once: from then on it is taken as it is
Leaf(x, ob) == [kind |-> ob.kind, args |-> ob.args, env |-> Range(ob.env),
                o |-> [f \in DOMAIN Defaults |-> IF ob.o[f] = "?" THEN x.o[f] ELSE ob.o[f]]]
Taken(x, ob) ==
  IF ob.kind = "pipe"
  THEN [kind |-> "pipe", cmds |-> [k \in DOMAIN ob.cmds |->
          Leaf(IF IsPipe(x) /\ k \in DOMAIN x.cmds THEN x.cmds[k] ELSE Ctx0, ob.cmds[k])]]
  ELSE Leaf(IF IsPipe(x) THEN Ctx0 ELSE x, ob)
Sync(x, ob) == IF Diff(x, ob) = {} THEN x ELSE Taken(x, ob)
Synced(s, e) == [s EXCEPT !.objs = [k \in DOMAIN @ |-> Sync(@[k], e.obs[k])]]
OpUpd(s, e) ==
  IF e.out # "ok" THEN Synced(s, e)
  ELSE [Synced(s, e) EXCEPT !.objs = Append(@,
          Sync(IF Fails(s, e) = "" THEN New(s, e) ELSE Ctx0, e.obs[Len(e.obs)]))]

(* -- running ------------------------------------------------------------------ *)
(* The redirect table.                                                         *)
TypeOf(s, v) == IF v \in DOMAIN s.cfg.types THEN s.cfg.types[v] ELSE "redirect"
\* the commands as they are run: a pipeline's inner ends are its own pipes
Staged(s, x, form) ==
  LET cs == CmdsOf(x) n == Len(cs)
      lst == cs[n]
      \* iterating and prompting capture
      out == IF form = "prompt" THEN "CAPTURE"
             ELSE IF form = "iter" /\ lst.o.output = "DEFAULT" THEN "CAPTURE" ELSE lst.o.output
      err == IF form = "iter" /\ lst.o.output = "DEVNULL" /\ lst.o.error = "STDOUT" THEN "CAPTURE" ELSE lst.o.error
      inp == IF form = "prompt" THEN "CAPTURE" ELSE cs[1].o.input
  IN [k \in 1..n |->
        [cs[k] EXCEPT !.o = With(@, [input |-> IF k = 1 THEN inp ELSE "PIPE",
                                     output |-> IF k = n THEN out ELSE "PIPE",
                                     error |-> IF k = n THEN err ELSE cs[k].o.error])]]
In(c) == IF c.o.input = "DEFAULT" THEN "EMPTY" ELSE c.o.input
Out(c) == IF c.o.output = "DEFAULT" THEN "BUFFER" ELSE c.o.output
Err(c) == IF c.o.error = "DEFAULT" THEN "BUFFER" ELSE c.o.error
\* "standard error only"
ErrOnly(c) == c.o.output = "DEVNULL" /\ c.o.error = "STDOUT"

BadInTypes == {"float", "tuple", "logger", "writer"}
BadOutTypes == {"float", "tuple", "str", "bytes", "reader"}
BadRedirect(s, c) ==
  \/ In(c) = "BUFFER" \/ TypeOf(s, In(c)) \in BadInTypes
  \/ TypeOf(s, Out(c)) \in BadOutTypes \/ TypeOf(s, Err(c)) \in BadOutTypes
Refusal(s, x, form) ==
  LET cs == Staged(s, x, form) l == cs[Len(cs)] IN
  IF form = "iter" /\ Out(l) = "CAPTURE" /\ Err(l) = "CAPTURE" THEN "RuntimeError"
  ELSE IF form = "await" /\ Out(l) = "CAPTURE" /\ Err(l) = "CAPTURE" THEN "ValueError"
  ELSE IF \E k \in DOMAIN cs : BadRedirect(s, cs[k]) THEN "TypeError" ELSE ""

\* where a command's standard output / error ends up
OutPlace(c) == IF Out(c) \in {"DEVNULL"} THEN "none" ELSE Out(c)
ErrPlace(c) == IF Err(c) # "STDOUT" THEN (IF Err(c) = "BUFFER" THEN "EBUFFER" ELSE IF Err(c) = "CAPTURE" THEN "ECAPTURE"
                                          ELSE IF Err(c) = "INHERIT" THEN "EINHERIT" ELSE IF Err(c) = "DEVNULL" THEN "none" ELSE Err(c))
               ELSE IF ErrOnly(c) THEN "BUFFER" ELSE OutPlace(c)
\* labels that the stages put in a place
InPlace(cs, ls, k, pl) == (IF OutPlace(cs[k]) = pl THEN {ls[k].o} ELSE {}) \cup (IF ErrPlace(cs[k]) = pl THEN {ls[k].e} ELSE {})
Place(cs, ls, pl) == UNION {InPlace(cs, ls, k, pl) : k \in DOMAIN cs}

SinkOf(s, t) == IF t \in DOMAIN s.sinks THEN s.sinks[t]
                ELSE IF t \in DOMAIN s.cfg.olds THEN Range(s.cfg.olds[t]) ELSE {}
\* what the child at position k finds on its standard input: <<kind, data>>
WantIn(s, cs, ls, k, form) ==
  LET v == In(cs[k]) ty == TypeOf(s, v) IN
  IF v = "PIPE" THEN <<"pipe", InPlace(cs, ls, k - 1, "PIPE"), "eof">>
  ELSE IF v = "EMPTY" THEN <<"pipe", {}, "eof">>
  ELSE IF v = "DEVNULL" THEN <<"null", {}, "">>
  ELSE IF v = "INHERIT" THEN <<"inherit", {}, "">>
  ELSE IF v = "CAPTURE" THEN
     (IF form \in {"with", "prompt"} /\ k = 1 THEN <<"pipe", {"BODY"}, "eof">> ELSE <<"pipe", {}, "open">>)
  ELSE IF ty \in {"path", "int"} THEN <<v, {}, "">>
  ELSE IF v \in DOMAIN s.cfg.texts THEN <<"pipe", Range(s.cfg.texts[v]), "eof">>
  ELSE <<"pipe", SinkOf(s, v), "eof">>  \* a buffer that output went to

\* a program without a directory is looked for in the path option, else in PATH
PathOf(s, c) == IF c.o.path # "None" THEN c.o.path ELSE (CHOOSE p \in s.sys : p[1] = "PATH")[2]
Argv(s, c) == IF c.args[1] \in DOMAIN s.cfg.where
              THEN <<s.cfg.where[c.args[1]][PathOf(s, c)]>> \o Tail(c.args) ELSE c.args
EnvOf(s, c) == IF c.o.inherit_env = "True" THEN Merge(s.sys, c.env) ELSE c.env

LaunchBad(s, cs, ls, k, form) ==
  LET c == cs[k] l == ls[k] w == WantIn(s, cs, ls, k, form) IN
  (IF l.argv = Argv(s, c) THEN {} ELSE {"C21.argv"})
  \cup (IF Range(l.env) = EnvOf(s, c) THEN {} ELSE {"C22.env"})
  \cup (IF l.kind = w[1] THEN {} ELSE {"C26.stdin"})
  \cup (IF l.kind = "pipe" /\ w[1] = "pipe" /\ (Range(l.data) # w[2] \/ l.eof # w[3]) THEN {"C26.input"} ELSE {})
  \cup (IF (l.sess <=> c.o._start_new_session = "True") /\ l.pass = c.o.pass_fds
           /\ (l.cfds <=> (c.o.close_fds = "True" \/ c.o.pass_fds # "fds:[]")) THEN {} ELSE {"C20.options"})

Truncates == {"path", "bytearray", "bytesio", "stringio", "file"}
\* the sink's content after the run: truncated unless appending, then what went there
AfterSink(s, cs, ls, t) ==
  LET tgt == CASE t = "inh1" -> "INHERIT" [] t = "inh2" -> "EINHERIT" [] OTHER -> t
      app == \A k \in DOMAIN cs : (Out(cs[k]) = t => cs[k].o.output_append = "True")
                               /\ (Err(cs[k]) = t => cs[k].o.error_append = "True")
      used == \E k \in DOMAIN cs : Out(cs[k]) = t \/ Err(cs[k]) = t
      cut == used /\ ~app /\ TypeOf(s, t) \in Truncates
      \* the caller's own standard error may be its standard output
      also == IF ~s.cfg.same THEN Place(cs, ls, tgt) ELSE IF t = "inh2" THEN {}
              ELSE Place(cs, ls, tgt) \cup (IF t = "inh1" THEN Place(cs, ls, "EINHERIT") ELSE {})
  IN (IF cut THEN {} ELSE SinkOf(s, t)) \cup also

ExitOf(s, c) == s.cfg.exits[c.args[1]]
Accepted(s, c) == LET t == c.o.exit_codes IN IF t = "None" THEN ExitOf(s, c) = 0 ELSE ExitOf(s, c) \in Range(s.cfg.codes[t])
RECURSIVE AuditOf(_, _)
AuditOf(cs, k) == IF k > Len(cs) THEN <<>>
                  ELSE (IF cs[k].o.audit_callback = "None" THEN <<>> ELSE <<cs[k].o.audit_callback>>) \o AuditOf(cs, k + 1)
Count(q, t) == Cardinality({k \in DOMAIN q : q[k] = t})

RunBad(s, r) ==
  LET x == s.objs[r.on] cs == Staged(s, x, r.form) lst == cs[Len(cs)]
      ref == Refusal(s, x, r.form)
      ls == r.ls
  IN
  IF ref # "" THEN
    (IF r.out = ref THEN {} ELSE {"C26.refusal"})
    \cup (IF ls = <<>> \/ Len(cs) > 1 THEN {} ELSE {"C26.launched"})
  ELSE IF Len(ls) # Len(cs) THEN {"C20.launches", "C26.launches"}
  ELSE
    UNION {LaunchBad(s, cs, ls, k, r.form) : k \in DOMAIN cs}
    \cup (LET raises == ~Accepted(s, lst) IN
          IF r.form \in {"await", "with"} /\ r.out = (IF raises THEN "ResultError" ELSE "ok") THEN {}
          ELSE IF r.form \in {"iter", "prompt"} /\ r.out = "ok" THEN {} ELSE {"C20.outcome"})
    \cup (IF r.form = "await" /\ r.out = "ok" /\ r.ret # (IF lst.o._return_result = "True" THEN "Result" ELSE "str") THEN {"C20.outcome"} ELSE {})
    \cup (IF ~r.seeout \/ Range(r.res) = Place(cs, ls, "BUFFER") THEN {} ELSE {"C26.output"})
    \cup (IF ~r.seeerr \/ Range(r.err) = InPlace(cs, ls, Len(cs), "EBUFFER") THEN {} ELSE {"C26.error"})
    \cup (IF r.form \in {"with", "prompt"} /\ Range(r.cap1) # InPlace(cs, ls, Len(cs), "CAPTURE") THEN {"C26.captured"} ELSE {})
    \cup (IF r.form = "with" /\ Range(r.cap2) # InPlace(cs, ls, Len(cs), "ECAPTURE") THEN {"C26.captured"} ELSE {})
    \cup (IF r.form = "iter" /\ Range(r.cap1) # (InPlace(cs, ls, Len(cs), "CAPTURE") \cup InPlace(cs, ls, Len(cs), "ECAPTURE"))
          THEN {"C26.iterated"} ELSE {})
    \cup (IF r.form = "with" /\ r.streams # <<In(cs[1]) = "CAPTURE", Out(lst) = "CAPTURE", Err(lst) = "CAPTURE">>
          THEN {"C26.streams"} ELSE {})
    \cup (IF r.form = "with" /\ r.code # ExitOf(s, lst) THEN {"C20.outcome"} ELSE {})
    \cup (LET want == AuditOf(cs, 1) IN
          IF \A t \in Range(want) \cup Range(r.aud) : Count(r.aud, t) = 2 * Count(want, t) THEN {} ELSE {"C20.audit"})

\* several runs at once: only their own places count
RECURSIVE SinksAfter(_, _, _)
SinksAfter(s, rs, t) ==
  IF rs = <<>> THEN SinkOf(s, t)
  ELSE LET r == Head(rs)
           v == IF Refusal(s, s.objs[r.on], r.form) # "" \/ Len(r.ls) # Len(CmdsOf(s.objs[r.on])) THEN SinkOf(s, t)
                ELSE AfterSink(s, Staged(s, s.objs[r.on], r.form), r.ls, t)
       IN SinksAfter([s EXCEPT !.sinks = [u \in DOMAIN @ \cup {t} |-> IF u = t THEN v ELSE @[u]]], Tail(rs), t)
AnyRefused(s, e) == \E k \in DOMAIN e.rs : Refusal(s, s.objs[e.rs[k].on], e.rs[k].form) # ""

RunGuard(s, e) ==
  UNION {RunBad(s, e.rs[k]) : k \in DOMAIN e.rs}
  \cup (IF \E k \in DOMAIN e.rs : s.objs[e.rs[k].on] \in s.ran /\ RunBad(s, e.rs[k]) # {} THEN {"C20.unlike"} ELSE {})
  \cup (IF AnyRefused(s, e) THEN {}
        ELSE IF \A k \in DOMAIN e.sinks : Range(e.sinks[k].l) = SinksAfter(s, e.rs, e.sinks[k].s) THEN {} ELSE {"C26.sink"})
  \cup (LET c == Changed(s.objs, e.obs) IN IF c = {} THEN {} ELSE {"C20.ran"})
  \cup (IF Range(e.sys) = s.sys THEN {} ELSE {"C22.sysenv"})
  \cup (IF e.hang THEN {"C20.hang", "C26.hang"} ELSE {})

RunUpd(s, e) == [Synced(s, e) EXCEPT
                   !.ran = @ \cup {s.objs[e.rs[k].on] : k \in {k \in DOMAIN e.rs : RunBad(s, e.rs[k]) = {}}}, !.sinks = [t \in DOMAIN @ \cup {e.sinks[k].s : k \in DOMAIN e.sinks} |->
                     IF \E k \in DOMAIN e.sinks : e.sinks[k].s = t
                     THEN Range(e.sinks[CHOOSE k \in DOMAIN e.sinks : e.sinks[k].s = t].l) ELSE @[t]]]

Guard(s, e) == CASE e.k = "op" -> OpGuard(s, e) [] e.k = "run" -> RunGuard(s, e)
                 [] e.k = "mutate" -> {IF c = {} THEN "" ELSE "C20.aliased" : c \in {Changed(s.objs, e.obs)}} \ {""}
                 [] OTHER -> {}
Upd(s, e) == CASE e.k = "op" -> OpUpd(s, e) [] e.k = "run" -> RunUpd(s, e)
               [] e.k = "mutate" -> Synced(s, e)
               [] e.k = "chenv" -> [s EXCEPT !.sys = Range(e.env)]
               [] OTHER -> s
=============================================================================
