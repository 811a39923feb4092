"Exhaustive runs of the design models, whose events go through the same clauses as the traces."
from concurrent.futures import ThreadPoolExecutor

from . import tlc

_RUNNER = dict(Form='"await"', Shape='"one"', FailAt='""', Tmo=99, Ctmo=2, MaxCancel=2, LastCancel=2,
               MaxT=9, Hold=1, Lag=1, Codes="{0, 1}")


def R(**k):
    "Quote the strings, except sets and truth values."
    return {a: (f'"{b}"' if isinstance(b, str) and b[:1] != "{" and b not in ("TRUE", "FALSE") else b)
            for a, b in k.items()}


QUICK = {
    "": [R(Tmo=2), R(Form="with")],
    "C06": [R(Tmo=2), R(Form="with", Tmo=2), R(Tmo=0)],
    "C13": [R(Shape="pipe", FailAt="a", MaxCancel=1), R(Shape="pipe", Form="with", FailAt="b", MaxCancel=1)],
    "C14": [R(Shape="sub", FailAt="b"), R(Shape="sub", MaxCancel=1, LastCancel=0, Lag=0)],
    "C27": [R(FailAt="a", Form="with"), R(Shape="pipe", FailAt="b", MaxCancel=1), R(Shape="sub", FailAt="b")],
}
FULL = [
    R(), R(Tmo=2), R(Tmo=0), R(Form="with"), R(Form="with", Tmo=2, MaxCancel=3, LastCancel=4), R(Form="with", FailAt="a"),
    R(Hold=3, Tmo=2, MaxCancel=3, LastCancel=5), R(Ctmo=0, Form="with", MaxCancel=3),
    R(Shape="sub"), R(Shape="sub", FailAt="b"), R(Shape="sub", Tmo=2, MaxCancel=1), R(Shape="sub", Form="with", MaxCancel=1),
    R(Shape="sub", Form="with", Tmo=2, MaxCancel=1),
    R(Shape="pipe", MaxCancel=1), R(Shape="pipe", FailAt="a"), R(Shape="pipe", FailAt="b"),
    R(Shape="pipe", Form="with", FailAt="b"), R(Shape="pipe", Tmo=2, MaxCancel=1, LastCancel=1),
    R(Shape="pipe", Form="with", MaxCancel=1, LastCancel=1, Hold=0, Lag=0),
]


def exhaust(report, module, cfgs, workers=2):
    """Check every (name, configuration text) exhaustively; add it to the report."""
    par = 4 if workers == 2 else 3

    def one(c):
        try:
            return tlc.check_model(module, defines=c[1], workers=workers, timeout=800)
        except Exception as ex:  # machinery
            return ex

    with ThreadPoolExecutor(par) as ex:
        for (name, cfg), res in zip(cfgs, ex.map(one, cfgs)):
            if isinstance(res, Exception):
                report.errors.append(f"{module} {name}: {res}")
                continue
            ok, gen, distinct, out = res
            what = " ".join(x for line in cfg.splitlines() if line.startswith(("INVARIANT", "PROPERTY"))
                            for x in line.split()[1:])
            report.add_model(f"{module} {name}", distinct, gen, what)
            if not ok:
                report.errors.append(f"{module} {name}: the design breaks its clauses\n" + out[-1500:])


def config(checks, base, over):
    "(name, text of a TLC configuration)"
    d = dict(base)
    d.update(over)
    return (" ".join(f"{a}={b}" for a, b in over.items()).replace('"', ""),
            f"SPECIFICATION Spec\n{checks}\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
            + "\n".join(f" {a} = {b}" for a, b in d.items()))


def run(report):
    "The runner models for one property."
    jobs = QUICK.get(report.prop, QUICK[""]) if report.tier == "quick" else FULL
    checks = "INVARIANT NoClauseBroken NothingLeft Prompt Bounded\nPROPERTY CancelEnds"
    exhaust(report, "MCRunner", [config(checks, _RUNNER, over) for over in jobs], 2 if report.tier == "quick" else 3)


_HARVEST = dict(Fn='"harvest"', N=2, Tmo=99, Ctmo=2, Finish="FALSE", MaxStop=2, MaxT=7)


def harvest(report):
    q = [R(), R(Tmo=1), R(Finish=True, Tmo=2), R(Fn="results", Tmo=1)]
    if report.tier != "quick":
        q += [R(Tmo=0), R(Finish=True), R(Fn="results"), R(N=3, Tmo=1), R(N=3), R(N=3, Finish=True, Tmo=2),
              R(N=3, Fn="results", Tmo=2), R(Ctmo=0), R(MaxStop=3, Ctmo=3, Tmo=3, MaxT=10)]
    for d in q:
        for k, v in d.items():
            if isinstance(v, bool):
                d[k] = str(v).upper()
    exhaust(report, "MCHarvest", [config("INVARIANT NoClauseBroken AllDone\nPROPERTY Ends", _HARVEST, o) for o in q])


_WATCH = dict(N=3, Strategy='"auto"', Steal="FALSE", Faults="{}", Orphan=0, Pids=2)


def watch(report):
    "Both strategies of the child watcher."
    q = [R(), R(Steal="T", N=2), R(Strategy="thread", Steal="T", N=2), R(Faults="F", N=2)]
    if report.tier != "quick":
        q += [R(Steal="T", Pids=3), R(Strategy="thread", Steal="T", Pids=3), R(Strategy="thread"), R(Faults="F"),
              R(Orphan=3, Steal="T", Pids=3), R(Orphan=3, Strategy="thread", Pids=3)]
    for d in q:
        if d.get("Steal"):
            d["Steal"] = "TRUE"
        if d.get("Faults"):
            d["Faults"] = "{1, 2}"
    exhaust(report, "MCWatch", [config("INVARIANT NoClauseBroken\nPROPERTY Ends", _WATCH, o) for o in q])


_PTY = dict(Mode='"noecho"', In='"line"', Out='"term"', Cap=2, MaxW=2, MaxCancel=1, Drain="TRUE", Abort="TRUE")


def pty(report):
    "A run in a terminal: every end-of-session order."
    q = [R(), R(In="partial", Mode="true", Cap=3), R(In="long", Cap=3), R(Out="file", In="long", Cap=2, MaxW=3), R(In="none", MaxW=3)]
    if report.tier != "quick":
        q += [R(Mode="raw", In="long"), R(Mode="cbreak", In="partial"), R(In="line", Mode="true", MaxW=3, MaxCancel=2),
              R(In="empty", Mode="true"), R(Out="file", In="line", Mode="true", MaxW=4, MaxCancel=2)]
    exhaust(report, "MCPty", [config("INVARIANT NoClauseBroken\nPROPERTY Ends", _PTY, o) for o in q])


_PUMP = dict(Shape='"one"', Fed=3, Cap=2, Lim=1, MaxOps=4, MaxOpsB=3, Codes="{0, 1}", Cancels="FALSE",
             Drain="TRUE", GiveAway="TRUE", EofLast="TRUE", Flush="TRUE")


def pump(report):
    "The bytes of a run: every order of reads, writes, closes and exits."
    one, pipe, sub = R(MaxOps=3), R(Shape="pipe", Fed=1, Cap=1, MaxOps=2, MaxOpsB=1), R(Shape="sub", Fed=1, Cap=1, MaxOps=2, MaxOpsB=1)
    q = {"C12": [pipe], "C11": [one, pipe], "C14": [sub]}.get(report.prop, [one])
    if report.tier != "quick":
        q = [R(Cancels="TRUE", MaxOps=5, Lim=2), R(Shape="pipe", Fed=1, Cap=1, MaxOps=3, MaxOpsB=2),
             R(Shape="pipe", Fed=1, Cap=1, Cancels="TRUE", MaxOps=2, MaxOpsB=2),
             R(Shape="sub", Fed=2, Cap=1, MaxOps=3, MaxOpsB=2), R(Shape="sub", Fed=1, Cap=1, MaxOps=2, MaxOpsB=2, Cancels="TRUE")]
    exhaust(report, "MCPump", [config("INVARIANT NoClauseBroken\nPROPERTY Ends", _PUMP, o) for o in q])


_PROMPT = dict(Alphabet="{97, 98}", PatSets="{1, 3}", MaxW=3, MaxR=0, MaxCalls=2, Sends="FALSE", Tmos="{1, 9}", MaxT=2, MaxStop=0,
               IsNorm="FALSE", Cap=2, Buf=2, Keep="TRUE", HoldCR="TRUE", Whole="TRUE", ReadToo="TRUE")


def prompt(report):
    "A session: every chunking, order and pace."
    text = R(PatSets="{2, 3, 5}", MaxT=1)
    talk = R(Alphabet="{97}", PatSets="{1}", MaxW=3, MaxR=1, Sends="TRUE", Cap=1, Buf=1, MaxT=1)
    q = [text] if report.prop == "C15" else [talk]
    if report.tier != "quick":
        q = [R(PatSets="{1, 2, 3}", MaxCalls=3), R(Alphabet="{97, 13, 10}", PatSets="{4}", IsNorm="TRUE", MaxCalls=2), R(MaxStop=1),
             R(Alphabet="{97, 98, 99}", PatSets="{1, 5}", MaxW=4, MaxT=1),
             R(Alphabet="{97}", PatSets="{1}", MaxW=3, MaxR=2, Sends="TRUE", Cap=1, Buf=1, MaxCalls=2),
             R(Alphabet="{97}", PatSets="{1}", MaxW=2, MaxR=2, Sends="TRUE", Cap=1, Buf=1, MaxCalls=2, MaxStop=1)]
    exhaust(report, "MCPrompt", [config("INVARIANT NoClauseBroken\nPROPERTY Ends", _PROMPT, o) for o in q])


_NEST = dict(Objects="{1}", MaxUses=3, MaxTasks=2, MaxCancel=0, Fails="TRUE", Signals=0, ByTask="TRUE", ByObject="TRUE", Last="TRUE")


def nest(report):
    "Uses of shared objects, nested and interleaved in every way."
    q = [R(Objects="{1, 3}", MaxUses=2), R(Objects="{1, 2}", Fails="FALSE"), R(MaxCancel=1, Signals=1, MaxUses=2)]
    if report.tier != "quick":
        q = [R(Objects="{1, 2, 3}", MaxUses=4, MaxTasks=1, MaxCancel=1), R(MaxUses=4, MaxTasks=3, Fails="FALSE"),
             R(Objects="{1, 3}", MaxCancel=2, Signals=1, MaxUses=2), R(MaxUses=4, Objects="{1, 2}")]
    exhaust(report, "MCNest", [config("INVARIANT NoClauseBroken AllLeft\nPROPERTY Ends", _NEST, o) for o in q])


_VALUES = dict(MaxObjs=4, CopyOptions="TRUE", CopyEnv="TRUE", CopyCmds="TRUE",
               Ops='{"stdin", "stdout", "stderr", "or", "ror", "rshift", "call", "env", "set", "result", "writable", "orobj", "item"}')


def values(report):
    "Objects that share options, settings and stages."
    q = [R()]
    if report.tier != "quick":
        q += [R(MaxObjs=5, Ops='{"call", "orobj", "item", "stdout", "env"}')]
    exhaust(report, "MCValues", [config("INVARIANT NoClauseBroken Laws\nPROPERTY Immutable", _VALUES, o) for o in q])
