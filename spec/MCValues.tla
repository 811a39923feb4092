------------------------------- MODULE MCValues -------------------------------
(***************************************************************************)
(* Design model: how commands, pipelines and contexts are kept. An object  *)
(* is its arguments and a reference to a record of options, which objects  *)
(* share; the record refers to a dictionary of environment settings, which *)
(* records share. An operation makes a new object; what it changes, it     *)
(* changes in a copy. Every operation is applied to every object of every  *)
(* family of at most MaxObjs objects.                                      *)
(* Each step emits an event of Values with all objects as they look then;  *)
(* no step may break a clause of it, and the objects keep to the laws.     *)
(*                                                                         *)
(* CopyOptions, CopyEnv and CopyCmds are what the design relies on.        *)
(***************************************************************************)
EXTENDS Values

CONSTANTS MaxObjs, Ops,
          CopyOptions, \* options are copied before they are changed
          CopyEnv,     \* ... and so is the dictionary
          CopyCmds     \* ... and so are the stages of a pipeline
VARIABLES s, bad, objs, opts, dicts, stages
vars == <<s, bad, objs, opts, dicts, stages>>

Cfg == [env0 |-> <<<<"PATH", "p">>>>, types |-> [x \in {"buf"} |-> "bytearray"]]
Term(ty, v, xs) == [ty |-> ty, v |-> v, xs |-> xs]
ArgLists == {<<>>, <<Term("str", "a", <<>>)>>, <<Term("None", "None", <<>>)>>,
             <<Term("list", "", <<Term("str", "b", <<>>), Term("tuple", "", <<>>)>>)>>}
Envs == {<<<<"A", "1">>>>, <<<<"A", "2">>, <<"B", "1">>>>, <<>>}
Kws == {[timeout |-> "float:1.0"], [exit_codes |-> "codes:{0, 1}", path |-> "str:p"], [encoding |-> "str:''"]}

Init == /\ s = Init0(Cfg) /\ bad = {}
        /\ dicts = <<{}>> /\ opts = <<[env |-> 1, o |-> Defaults]>> /\ stages = <<>>
        /\ objs = <<[kind |-> "ctx", args |-> <<>>, opt |-> 1]>>

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

(* the memory: objects, records of options, dictionaries, lists of stages *)
Mem == [objs |-> objs, opts |-> opts, dicts |-> dicts, stages |-> stages]
SeeLeaf(m, x) == [kind |-> x.kind, args |-> x.args, env |-> SeqOf(m.dicts[m.opts[x.opt].env]), o |-> m.opts[x.opt].o]
See(m, x) == IF x.kind = "pipe" THEN [kind |-> "pipe", cmds |-> [k \in DOMAIN m.stages[x.list] |-> SeeLeaf(m, m.stages[x.list][k])]]
             ELSE SeeLeaf(m, x)
All(m) == [k \in DOMAIN m.objs |-> See(m, m.objs[k])]

\* an object with changed options: [m |-> memory, x |-> the object]
Options(m, x, kw) ==
  IF CopyOptions
  THEN [m |-> [m EXCEPT !.opts = Append(@, [m.opts[x.opt] EXCEPT !.o = With(@, kw)])], x |-> [x EXCEPT !.opt = Len(m.opts) + 1]]
  ELSE [m |-> [m EXCEPT !.opts[x.opt].o = With(@, kw)], x |-> x]
NewEnv(m, x, d) == \* x has options of its own
  [m |-> [m EXCEPT !.dicts = Append(@, d), !.opts[x.opt].env = Len(m.dicts) + 1], x |-> x]
AddEnv(m, x, d) ==
  LET r == Options(m, x, [a \in {} |-> ""]) old == r.m.dicts[r.m.opts[r.x.opt].env] IN
  IF CopyEnv THEN NewEnv(r.m, r.x, Merge(old, d)) ELSE [r EXCEPT !.m.dicts[r.m.opts[r.x.opt].env] = Merge(@, d)]
\* a stage of a pipeline changed
Stage(m, x, k, f(_, _)) ==
  LET r == f(m, m.stages[x.list][k]) IN
  IF CopyCmds THEN [m |-> [r.m EXCEPT !.stages = Append(@, [m.stages[x.list] EXCEPT ![k] = r.x])], x |-> [x EXCEPT !.list = Len(m.stages) + 1]]
  ELSE [m |-> [r.m EXCEPT !.stages[x.list][k] = r.x], x |-> x]
At(m, x, end, f(_, _)) == IF x.kind = "pipe" THEN Stage(m, x, IF end = "first" THEN 1 ELSE Len(m.stages[x.list]), f) ELSE f(m, x)
Redirect(m, x, op, a) ==
  CASE op \in {"stdin", "ror"} -> At(m, x, "first", LAMBDA n, y : Options(n, y, [input |-> a.v, input_close |-> a.close]))
    [] op \in {"stdout", "or", "rshift"} ->
         At(m, x, "last", LAMBDA n, y : Options(n, y, [output |-> a.v, output_append |-> a.append, output_close |-> a.close]))
    [] op = "stderr" -> At(m, x, "last", LAMBDA n, y : Options(n, y, [error |-> a.v, error_append |-> a.append, error_close |-> a.close]))
Cmds(m, x) == IF x.kind = "pipe" THEN m.stages[x.list] ELSE <<x>>
Made(e) ==
  LET x == objs[e.on] a == e.a IN
  CASE e.op \in {"stdin", "stdout", "stderr", "or", "ror", "rshift"} -> Redirect(Mem, x, e.op, a)
    [] e.op = "env" -> AddEnv(Mem, x, PairSet(a.env))
    [] e.op = "set" -> LET r == Options(Mem, x, a.kw) IN IF a.hasenv THEN NewEnv(r.m, r.x, PairSet(a.env)) ELSE r
    [] e.op = "result" -> At(Mem, x, "last", LAMBDA n, y : Options(n, y, [_return_result |-> "True", exit_codes |-> AnyCode]))
    [] e.op = "writable" -> At(Mem, x, "last", LAMBDA n, y : Options(n, y, [_writable |-> "True"]))
    [] e.op = "call" -> [m |-> Mem, x |-> IF x.kind = "pipe" THEN x ELSE [x EXCEPT !.kind = "cmd", !.args = @ \o Texts(a.terms)]]
    [] e.op = "orobj" -> [m |-> [Mem EXCEPT !.stages = Append(@, Cmds(Mem, x) \o Cmds(Mem, objs[a.rhs]))], x |-> [kind |-> "pipe", list |-> Len(stages) + 1]]
    [] e.op = "item" -> [m |-> Mem, x |-> stages[x.list][a.k]]

Do(on, op, a) ==
  LET e0 == [k |-> "op", on |-> on, op |-> op, a |-> a]
      f == Fails(s, e0)
      r == IF f = "" THEN Made(e0) ELSE [m |-> Mem, x |-> objs[on]]
      m == IF f = "" THEN [r.m EXCEPT !.objs = Append(@, r.x)] ELSE Mem
      see == All(m)
      e == e0 @@ [out |-> IF f = "" THEN "ok" ELSE f, obs |-> see, hb |-> 0, sys |-> <<>>, sig |-> [k \in DOMAIN see |-> ""],
                  eq |-> SeqOf({p \in (DOMAIN see) \X (DOMAIN see) : p[1] < p[2] /\
                           LET v == [k \in DOMAIN see |-> IF see[k].kind = "pipe" THEN [j \in DOMAIN see[k].cmds |-> [see[k].cmds[j] EXCEPT !.env = Range(@)]]
                                                          ELSE [see[k] EXCEPT !.env = Range(@)]]
                           IN see[p[1]].kind = see[p[2]].kind /\ v[p[1]] = v[p[2]]})]
  IN /\ op \in Ops
     /\ bad' = bad \cup Guard(s, e) /\ s' = Upd(s, e)
     /\ objs' = m.objs /\ opts' = m.opts /\ dicts' = m.dicts /\ stages' = m.stages

Next ==
  /\ Len(objs) < MaxObjs /\ bad = {}
  /\ \E on \in DOMAIN objs : LET x == objs[on] IN
       \/ \E op \in {"stdin", "stdout", "stderr"}, v \in {"buf", "STDOUT", "None"}, ap \in {"False", "True"} :
            (x.kind # "ctx") /\ Do(on, op, [v |-> v, append |-> ap, close |-> ap])
       \/ \E op \in {"or", "ror"} : Do(on, op, [v |-> "buf", ty |-> "bytearray", append |-> "False", close |-> "False"])
       \/ Do(on, "rshift", [v |-> "buf", ty |-> "bytearray", append |-> "True", close |-> "False"])
       \/ \E ts \in ArgLists : Do(on, "call", [terms |-> ts])
       \/ \E v \in Envs : x.kind # "pipe" /\ Do(on, "env", [env |-> v])
       \/ \E kw \in Kws, h \in BOOLEAN : x.kind # "pipe" /\ Do(on, "set", [kw |-> kw, bad |-> "", hasenv |-> h, env |-> <<<<"C", "1">>>>])
       \/ \E op \in {"result", "writable"} : x.kind # "ctx" /\ Do(on, op, [v |-> ""])
       \/ \E j \in DOMAIN objs : Do(on, "orobj", [rhs |-> j])
       \/ x.kind = "pipe" /\ \E k \in DOMAIN stages[x.list] : Do(on, "item", [k |-> k])
Spec == Init /\ [][Next]_vars

NoClauseBroken == bad = {}
\* nothing once made is ever changed
Immutable == [][\A k \in DOMAIN objs : s'.objs[k] = s.objs[k]]_vars
(* -- laws of the specification itself --------------------------------------- *)
Pipe(x, y) == [kind |-> "pipe", cmds |-> CmdsOf(x) \o CmdsOf(y)]
Ev(k, op, a) == [k |-> "op", on |-> k, op |-> op, a |-> a]
NoCtx == {k \in DOMAIN s.objs : s.objs[k].kind # "ctx"}
Laws ==
  \* a pipeline of pipelines is one pipeline, whatever way it is put together
  /\ \A i, j, k \in NoCtx : LET a == s.objs[i] b == s.objs[j] c == s.objs[k] IN Pipe(Pipe(a, b), c) = Pipe(a, Pipe(b, c))
  /\ \A k \in DOMAIN s.objs : LET x == s.objs[k] IN
       IF IsPipe(x)
       THEN \* redirections of a pipeline are those of its ends; inner stages read from each other
            /\ Len(x.cmds) >= 2
            /\ LET st == Staged(s, x, "await") n == Len(st) IN
                 /\ st[1].o.input = x.cmds[1].o.input /\ st[n].o.output = x.cmds[n].o.output
                 /\ \A j \in 1..n : (j > 1 => st[j].o.input = "PIPE") /\ (j < n => st[j].o.output = "PIPE")
                 /\ \A j \in 1..n : st[j].args = x.cmds[j].args /\ st[j].env = x.cmds[j].env /\ st[j].o.error = x.cmds[j].o.error
       ELSE \* the last setting counts, and asking twice is asking once
            /\ SetOut(SetOut(x, "buf", "True", "True"), "INHERIT", "False", "False") = SetOut(x, "INHERIT", "False", "False")
            /\ SetIn(SetOut(x, "buf", "True", "True"), "DEVNULL", "False") = SetOut(SetIn(x, "DEVNULL", "False"), "buf", "True", "True")
            /\ ResultOf(ResultOf(x)) = ResultOf(x) /\ WritableOf(WritableOf(x)) = WritableOf(x)
            /\ \A d \in {PairSet(q) : q \in Envs} : /\ Merge(Merge(x.env, d), d) = Merge(x.env, d) /\ d \subseteq Merge(x.env, d)
                                                    /\ Cardinality(Keys(Merge(x.env, d))) = Cardinality(Merge(x.env, d))
            \* arguments are kept apart: called twice is called once with all of them
            /\ \A t, u \in {t \in ArgLists : \A j \in DOMAIN t : ~Bad(t[j])} : Texts(t) \o Texts(u) = Texts(t \o u)
            \* a command with nothing set reads nothing and keeps its output
            /\ x.o = Defaults => In(x) = "EMPTY" /\ OutPlace(x) = "BUFFER" /\ ErrPlace(x) = "EBUFFER"
            \* what a command writes goes to one place at most, and standard error alone to the result
            /\ ErrOnly(x) => OutPlace(x) = "none" /\ ErrPlace(x) = "BUFFER"
=============================================================================
