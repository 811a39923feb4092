"""Scenarios for the life family: curated ones and random ones, each with the
configuration record the specification needs (spec/RunnerLife.tla)."""
import random

SIGNO = {"TERM": 15, "INT": 2, "KILL": 9, "NONE": 9, "USR1": 10, "HUP": 1, "QUIT": 3}
FAILS = {"enoent": "FileNotFoundError", "eacces": "PermissionError", "eagain": "BlockingIOError",
         "sub": "SubprocessError"}


def expected_err(script):
    out = b""
    for op in script.get("ops", ()):
        if op[0] == "w" and op[1] == 2:
            out += op[2]
    return out.decode("latin1")


def hold_of(script):
    if any(op[0] == "hold" for op in script.get("ops", ())):
        return int((script.get("release") or 0) * 1000)
    return 0


def make_cfg(scen):
    "The specification's view of a scenario."
    nodes, roots, inner = {}, [], []
    groups = [0]

    def leaf(c, outer, pipe):
        opt = c.get("opt", {})
        fail = ""
        if c["n"] in scen.get("exec_fail", {}):
            fail = FAILS[scen["exec_fail"][c["n"]]]
        if c.get("path", "").startswith("vfno"):
            fail = "FileNotFoundError"
        if opt.get("pty") == "bad":
            fail = "OSError"
        if "badpath" in (c.get("in"), c.get("out"), c.get("err")):
            fail = "FileNotFoundError"
        codes = opt.get("exit_codes")
        tmo = opt.get("timeout")
        nodes[c["n"]] = dict(
            sig=SIGNO[opt.get("sig", "TERM")],
            ctmo=int(opt.get("cancel_timeout", 3.0) * 1000),
            tmo=-1 if tmo is None else int(tmo * 1000),
            codes=sorted(codes) if codes is not None else [0],
            any=bool(c.get("nocheck")),
            catch=bool(opt.get("_catch_cancelled_error")),
            fail=fail, outer=outer, pipe=pipe, hold=hold_of(scen["scripts"].get(c["n"], {})),
            eb=expected_err(scen["scripts"].get(c["n"], {})),
        )
        (inner if outer else roots).append(c["n"])
        for a in c.get("args", ()):
            if isinstance(a, dict):
                walk(a, c["n"])

    def walk(c, outer):
        if "pipe" in c:
            groups[0] += 1
            g = f"p{groups[0]}"
            for s in c["pipe"]:
                leaf(s, outer, g)
        else:
            leaf(c, outer, "")

    walk(scen["cmd"], "")
    setup = lost = ""
    if "scarce" in scen:
        who = scarce_at(scen)
        if who == "inner":
            lost = "OSError"
        elif who is None:
            setup = "OSError"
        else:
            nodes[who]["fail"] = "OSError"
    usig = 0
    for a in scen.get("body", ()):
        if a[0] == "cancel":
            usig = nodes[roots[0]]["sig"]
        elif a[0] == "sig":
            usig = SIGNO[a[1]]
    return dict(form=scen["form"], root="pipe" if "pipe" in scen["cmd"] else "cmd",
                names=roots + inner, nodes=nodes, io=bool(scen.get("io")),
                setup=setup, lost=lost, aud=bool(scen.get("audit", True)), usig=usig, slack=12000)


def scarce_at(scen):
    "The command whose set-up meets the failing call, or None for the pipeline's own."
    c, d = scen["cmd"], scen["scarce"]
    if "pipe" not in c:
        inner = sum(isinstance(a, dict) for a in c.get("args", ()))
        return c["n"] if d.get("pipe", 0) <= inner else "inner"
    n = len(c["pipe"])
    if d.get("pipe", 0) < n and "openpty" not in d:
        return None
    return next(s["n"] for s in c["pipe"] if s.get("args") or "pty" in s.get("opt", {}))


def scarce(scen, pick):
    "Ways to run out of descriptors in a scenario, at a point that is certain."
    c = scen["cmd"]
    stages = c["pipe"] if "pipe" in c else [c]

    def fine(s):
        return "badpath" not in (s.get("in"), s.get("out"), s.get("err")) and "path" not in s and s.get("opt", {}).get("pty") != "bad"

    n = len(stages)
    ways = [{"pipe": k} for k in range(1, n)]
    subs = [s for s in stages if any(isinstance(a, dict) for a in s.get("args", ()))]
    if len(subs) == 1 and fine(subs[0]):
        ways += [{"pipe": n - 1 + k} for k in range(1, len(subs[0]["args"]) + 1)]
    if n == 1 and len(subs) == 1 and all("pipe" in a and not any(s.get("args") for s in a["pipe"]) for a in c["args"]):
        k = len(c["args"])
        ways += [{"pipe": k + j} for j in range(1, k + 1)]
    if n == 1 and c.get("opt", {}).get("pty") and fine(c) and not subs:
        ways.append({"openpty": 1})
    return pick(*ways) if ways else None


def finish(scen):
    "Add the configuration and the derived flags."

    def leaves(c):
        if "pipe" in c:
            for s in c["pipe"]:
                yield from leaves(s)
        else:
            yield c
            for a in c.get("args", ()):
                if isinstance(a, dict):
                    yield from leaves(a)

    ls = list(leaves(scen["cmd"]))
    if any(isinstance(c.get("in"), tuple) or c.get("in") == "reader" for c in ls):
        scen["io"] = True
    if any("pty" in c.get("opt", {}) for c in ls):
        scen["pty"] = 1
    elif all(c.get("err") is None for c in ls) and not any("hold" in (o[0] for o in s.get("ops", ())) for s in scen["scripts"].values()):
        scen["eb"] = True
    scen["cfg"] = make_cfg(scen)
    return scen


# -- curated ---------------------------------------------------------------
def curated():
    def A(**k):
        return dict(n="a", **k)

    quick = {"a": dict(ops=[("w", 1, b"hi\n"), ("sleep", 1), ("x", 3)])}
    stubborn = {"a": dict(ops=[("sleep", 10), ("x", 0)], disp={15: "ignore"})}
    S = {}
    S["quick"] = dict(form="await", cmd=A(), scripts=quick)
    S["coro"] = dict(form="coro", cmd=A(opt=dict(exit_codes=[3])), scripts=quick)
    S["stub"] = dict(form="await", cmd=A(opt=dict(cancel_timeout=2.0)), scripts=stubborn)
    S["stubwith"] = dict(S["stub"], form="with")
    S["stub0"] = dict(form="await", cmd=A(opt=dict(cancel_timeout=0.0)), scripts=stubborn)
    S["stub0with"] = dict(S["stub0"], form="with")
    S["later"] = dict(form="await", cmd=A(opt=dict(cancel_timeout=2.0)),
                      scripts={"a": dict(ops=[("sleep", 10), ("x", 0)], disp={15: ("later", (1.0, 0))})})
    S["nosig"] = dict(form="await", cmd=A(opt=dict(sig="NONE")), scripts=quick)
    S["fds"] = dict(form="await", cmd=A(**{"in": "fdc", "out": "fdc", "err": "fd", "passfds": "close"}), scripts=quick)
    S["fds2"] = dict(form="await", cmd=A(**{"in": "fdc", "out": "filec", "err": "fdc", "passfds": "keep"}), scripts=quick)
    both = [{"out": "fdc", "err": "same:out"}, {"out": "filec", "err": "same:out"}, {"in": "fdc", "out": "same:in", "err": "same:in"},
            {"out": "fdc", "err": "same:out", "passfds": "same"}, {"in": "fdc", "passfds": "same"}]
    for k, x in enumerate(both):
        S[f"fds-same{k}"] = dict(form="await", cmd=A(**x), scripts=quick)
        S[f"fds-same-nf{k}"] = dict(form="await", cmd=dict(n="vfnoa", path="vfnoa", **x), scripts={})
    S["nf"] = dict(form="await", cmd=dict(n="vfnoa", path="vfnoa", **{"in": "fdc", "out": "fdc", "err": "fd", "passfds": "close"}), scripts={})
    S["enoent"] = dict(form="await", cmd=A(**{"in": "fdc", "out": "fdc", "err": "fd", "passfds": "close"}), scripts=quick, exec_fail={"a": "enoent"})
    S["badpath"] = dict(form="await", cmd=A(**{"in": "fdc", "out": "badpath", "err": "fdc"}), scripts=quick)
    S["stdin"] = dict(form="await", cmd=A(**{"in": ("bytes", 100000)}), scripts={"a": dict(ops=[("r", 100), ("w", 1, b"x" * 70000), ("x", 0)])})
    S["stdin2"] = dict(form="await", cmd=A(**{"in": ("bytes", 200000)}), scripts={"a": dict(ops=[("rall",), ("w", 1, b"x" * 70000), ("x", 0)])})
    S["timeout"] = dict(form="await", cmd=A(opt=dict(timeout=0.5)), scripts=quick)
    S["timeoutstub"] = dict(form="await", cmd=A(opt=dict(timeout=0.5, cancel_timeout=2.0)), scripts=stubborn)
    S["latertmo"] = dict(form="await", cmd=A(opt=dict(timeout=1.25, cancel_timeout=3.0)),
                         scripts={"a": dict(ops=[("sleep", 1.0), ("sleep", 10), ("x", 0)], disp={15: ("later", (1.0, 0))})})
    S["stubtmo"] = dict(form="await", cmd=A(opt=dict(timeout=1.25, cancel_timeout=2.0)),
                        scripts={"a": dict(ops=[("sleep", 1.0), ("sleep", 10), ("x", 0)], disp={15: "ignore"})})
    S["withtmo"] = dict(form="with", cmd=A(out="capture", opt=dict(timeout=1.0, cancel_timeout=3.0)), body=[("sleep", 0.6), ("raise",)],
                        scripts={"a": dict(ops=[("sleep", 10), ("x", 0)], disp={15: ("later", (1.0, 0))})})
    S["withraise"] = dict(form="with", cmd=A(out="capture"), body=[("sleep", 0.3), ("raise",)], scripts=quick)
    S["withread"] = dict(form="with", cmd=A(out="capture"), body=[("read",)], scripts=quick)
    S["withcancel"] = dict(form="with", cmd=A(out="capture"), body=[("cancel",)], scripts=quick)
    S["withsig"] = dict(form="with", cmd=A(out="capture"), body=[("sig", "USR1"), ("read",)], scripts=quick)
    S["prompt"] = dict(form="prompt", cmd=A(), body=[("sleep", 0.3)], scripts=quick)
    S["iter"] = dict(form="iter", cmd=A(), scripts=quick)
    S["iterbrk"] = dict(form="iter", cmd=A(), brk=1, scripts=quick)
    S["pty"] = dict(form="await", cmd=A(opt=dict(pty=True)), scripts=quick)
    S["ptybad"] = dict(form="await", cmd=A(opt=dict(pty="bad")), scripts=quick)
    S["ptyenoent"] = dict(form="await", cmd=A(opt=dict(pty=True)), scripts=quick, exec_fail={"a": "enoent"})
    pipe3 = {"a": dict(ops=[("w", 1, b"hi\n" * 10), ("x", 0)]), "b": dict(ops=[("cat",), ("sleep", 1), ("x", 0)]),
             "c": dict(ops=[("cat",), ("x", 5)])}
    P = dict(pipe=[dict(n="a"), dict(n="b"), dict(n="c")])
    for f in ("await", "with", "iter", "prompt"):
        S["pipe-" + f] = dict(form=f, cmd=P, scripts=pipe3)
        for i in "abc":
            S["pipe-" + f + "-fail" + i] = dict(form=f, cmd=P, scripts=pipe3, exec_fail={i: "enoent"})
    S["pipe-fds-same"] = dict(form="await", cmd=dict(pipe=[dict(n="a", err="fdc", passfds="same"), dict(n="b"), dict(n="c", out="fdc", err="same:out")]), scripts=pipe3)
    S["pipe-fds"] = dict(form="await", cmd=dict(pipe=[dict(n="a", **{"in": "fdc", "err": "fdc"}), dict(n="b", err="fd", passfds="close"), dict(n="c", out="fdc")]), scripts=pipe3)
    S["pipe-fds-fail"] = dict(S["pipe-fds"], exec_fail={"b": "eagain"})
    sub = {"a": dict(ops=[("w", 1, b"hi\n" * 10), ("sleep", 1), ("x", 0)]), "b": dict(ops=[("w", 1, b"data"), ("x", 0)]),
           "c": dict(ops=[("rall",), ("x", 0)])}
    S["procsub"] = dict(form="await", cmd=A(args=[dict(n="b"), dict(n="c", wr=1)]), scripts=sub)
    S["procsub-fail"] = dict(S["procsub"], exec_fail={"a": "enoent"})
    S["procsub-failb"] = dict(S["procsub"], exec_fail={"b": "enoent"})
    S["procsub-bfails"] = dict(S["procsub"], scripts=dict(sub, b=dict(ops=[("sleep", 0.2), ("x", 4)])))
    subp = dict(sub, d=dict(ops=[("cat",), ("x", 0)]))
    S["procsub-pipe"] = dict(form="await", cmd=A(args=[dict(n="b"), dict(pipe=[dict(n="c"), dict(n="d")], wr=1)]), scripts=subp)
    S["procsub-pipe-fail"] = dict(S["procsub-pipe"], exec_fail={"a": "enoent"})
    S["procsub-pipe-faild"] = dict(S["procsub-pipe"], exec_fail={"d": "enoent"})
    S["ptynone"] = dict(S["pty"], scarce={"openpty": 1})
    S["procsub-fds"] = dict(form="await", cmd=A(args=[dict(n="b", **{"in": "fdc", "err": "fdc"}), dict(n="c", wr=1, out="fdc", passfds="close")], **{"in": "fdc", "out": "fdc", "err": "fd"}), scripts=sub)
    for ph in ("start", "signal", "stop"):
        for k in ("fds", "stub", "pipe-fds", "procsub-fds", "withcancel", "pty"):
            S[f"{k}-aud{ph}"] = dict(S[k], auditfail=(ph, "b" if k == "pipe-fds" else "a"))
        S[f"procsub-audc{ph}"] = dict(S["procsub-fds"], auditfail=(ph, "c"))
    for f in ("await", "with", "iter"):
        S["procsub-pipe-lost-" + f] = dict(S["procsub-pipe"], form=f, scarce={"pipe": 3}, cmd=A(args=[
            dict(n="b"), dict(pipe=[dict(n="c", err="fdc"), dict(n="d", out="fdc")], wr=1)]))
    for k in (1, 2):
        S[f"procsub-nopipe{k}"] = dict(S["procsub-fds"], scarce={"pipe": k})
        for f in ("await", "with", "iter", "prompt"):
            S[f"pipe-{f}-nopipe{k}"] = dict(S["pipe-fds"], form=f, scarce={"pipe": k})
            if f == "prompt":  # a prompt replaces the outer redirections
                S[f"pipe-prompt-nopipe{k}"]["cmd"] = dict(pipe=[dict(n="a"), dict(n="b", err="fdc", passfds="close"), dict(n="c")])
    mix = dict(pipe3, d=dict(ops=[("w", 1, b"data"), ("x", 0)]))
    S["pipe-sub-nopipe"] = dict(form="await", scripts=mix, scarce={"pipe": 1}, cmd=dict(pipe=[
        dict(n="a", **{"in": "fdc"}), dict(n="b", args=[dict(n="d", **{"in": "fdc", "err": "fdc"})]), dict(n="c", out="fdc")]))
    S["pipe-sub-nopipe3"] = dict(S["pipe-sub-nopipe"], scarce={"pipe": 3})
    return {k: finish(dict(v, name=k)) for k, v in S.items()}


# -- random ----------------------------------------------------------------
class Gen:
    def __init__(self, rng, focus=""):
        self.r = rng
        self.focus = focus
        self.k = 0

    def p(self, x):
        return self.r.random() < x

    def pick(self, *xs):
        return self.r.choice(xs)

    def name(self):
        self.k += 1
        return "abcdefghijklmnopqrstuvwxyz"[self.k - 1]

    def script(self, pos, writable=False):
        "pos: 'only' 'first' 'mid' 'last' 'inner'"
        r, ops = self.r, []
        if self.p(0.2):
            ops.append(("sleep", self.pick(0.2, 0.5, 1.0)))
        if pos in ("mid", "last") or writable:
            k = self.pick("cat", "cat", "rall", "r", "")
            if k == "cat":
                ops.append(("cat",))
            elif k == "rall":
                ops.append(("rall",))
            elif k == "r":
                ops.append(("r", 3))
        elif self.p(0.3):
            ops.append(self.pick(("rall",), ("r", 2), ("cat",)))
        if self.p(0.7):
            ops.append(("w", 1, self.pick(b"hi\n", b"x\n" * 20, b"line1\nline2", b"z" * 3000)))
        if self.p(0.15):
            ops.append(("close", self.pick(0, 1, 2)))
        elif self.p(0.15):
            ops.append(("w", 2, b"E" + pos.encode()))
        if self.p(0.5):
            ops.append(("sleep", self.pick(0.1, 0.5, 1.0, 2.5, 4.0)))
        if self.p(0.5 if self.focus == "grace" else 0.12):
            ops.append(("sleep", 40.0 if self.focus == "cancel" else 6.0))
        code = 0
        if self.p(0.3):
            code = self.pick(1, 2, 3, 7, -9, -15, -11, 255, 127)
        sp = {}
        if self.p(0.1) and not any(o[0] == "close" for o in ops):
            ops.append(("hold", self.pick((1,), (2,), (1, 2))))
            sp["release"] = self.pick(0.0, 0.5, 3.0)
        ops.append(("x", code))
        sp["ops"] = ops
        disp = {}
        for s in (15, 2, 1, 10):
            if self.p(0.5):
                how = self.pick("ignore", *["ignore"] * (self.focus != "grace"), ("exit", 0), ("exit", 5), ("later", (self.pick(0.3, 1.0, 2.5), self.pick(0, 4, -15))))
                disp[s] = how
        sp["disp"] = disp
        sp["lag"] = self.pick(0.0, 0.0, 0.0, 0.0, 0.2, 4.0) if self.focus == "lag" or self.p(0.2) else 0.0
        return sp

    def cmd(self, pos, scen, depth=0, writable=False):
        n = self.name()
        c = dict(n=n)
        f = self.focus
        opt = {}
        if self.p(0.5):
            opt["sig"] = self.pick("TERM", "INT", "NONE", "HUP", "USR1")
        if f == "grace":
            opt["sig"] = "TERM"
        opt["cancel_timeout"] = self.pick(0.5, 2.0, 3.0, 0.0, 0.5, 2.0, 3.0)
        if self.p(0.6 if f in ("timeout", "grace") else 0.15):
            opt["timeout"] = self.pick(0.0, 0.25, 0.75, 1.5, 3.25)
        if self.p(0.3):
            opt["exit_codes"] = self.pick([0, 1], [3], [0, 1, 2, 3, 7], [-9, 0], [-15, 0], [])
            if not opt["exit_codes"]:
                opt["exit_codes"] = [0, 255]
        if self.p(0.08) and depth == 0 and scen["form"] in ("await", "coro"):
            opt["_catch_cancelled_error"] = True
        if self.p(0.12):
            c["nocheck"] = True
        c["opt"] = opt
        if self.p(0.25) and depth == 0:
            c["result"] = True
        form = scen["form"]
        # redirects
        if pos in ("only", "first") and form != "prompt" and not writable:
            x = self.r.random()
            if x < 0.1:
                c["in"] = ("bytes", self.pick(3, 100) if form == "iter" else self.pick(3, 100, 100000))
            elif x < 0.3:
                c["in"] = self.pick("fd", "fdc", "path", "devnull", "reader", "fdc")
        if pos in ("only", "last") and form in ("await", "coro", "with") and depth == 0:
            if self.p(0.3):
                c["out"] = self.pick("fd", "fdc", "path", "devnull", "ba", "filec")
        if self.p(0.25) and form != "prompt":
            c["err"] = self.pick("fd", "fdc", "path", "devnull", "ba", "stdout", "filec")
            if c["err"] == "stdout" and form == "iter" and depth == 0:
                del c["err"]
            if c.get("out") in ("fdc", "filec") and self.p(0.3):
                c["err"] = "same:out"
        if self.p(0.15):
            c["passfds"] = self.pick("close", "keep", "same")
        scen["scripts"][n] = self.script(pos, writable)
        # failures
        if self.p(0.35 if f == "fail" else 0.06):
            k = self.pick("enoent", "eacces", "eagain", "sub", "nosuch", "badpath", "enoent")
            if k == "nosuch":
                scen["scripts"].pop(n)
                c["n"] = n = "vfno" + n
                c["path"] = n
            elif k == "badpath":
                c[self.pick("in", "err") if pos in ("only", "first") and not writable and form != "prompt" else "err"] = "badpath"
                if form == "prompt" and False:
                    pass
            else:
                scen.setdefault("exec_fail", {})[n] = k
        if depth == 0 and self.k < 7 and self.p(0.5 if f == "sub" else 0.08):
            c["args"] = [self.inner(scen) for _ in range(self.pick(1, 1, 2))]
        elif depth == 1 and self.p(0.08):
            c["args"] = [self.inner(scen, 2)]
        return c

    def inner(self, scen, depth=1):
        wr = self.p(0.4)
        if self.p(0.25) and depth == 1 and self.k < 5:
            a = self.cmd("first", scen, 3, writable=wr)
            b = self.cmd("mid", scen, 3)
            d = dict(pipe=[a, b])
        else:
            d = self.cmd("inner", scen, depth, writable=wr)
        if wr:
            d["wr"] = 1
        return d

    def scenario(self):
        f = self.focus
        form = self.pick("await", "await", "coro", "with", "iter", "prompt")
        if f == "body":
            form = self.pick("with", "with", "prompt", "iter")
        scen = dict(form=form, scripts={})
        if self.p(0.5 if f == "pipe" else 0.25 if f != "single" else 0.0):
            n = self.pick(2, 2, 3)
            scen["cmd"] = dict(pipe=[self.cmd("first" if i == 0 else "last" if i == n - 1 else "mid", scen) for i in range(n)])
            root = scen["cmd"]["pipe"]
        else:
            scen["cmd"] = self.cmd("only", scen)
            root = [scen["cmd"]]
        if form in ("with", "prompt"):
            acts = []
            if self.p(0.4):
                acts.append(("sleep", self.pick(0.1, 0.3, 1.0, 2.0)))
            if form == "with" and "in" not in root[0] and self.p(0.3):
                root[0]["in"] = "capture"
                acts.append(("closein",))
            if form == "with" and "out" not in root[-1] and self.p(0.5):
                root[-1]["out"] = "capture"
                if self.p(0.5):
                    acts.append(("read",))
            x = self.r.random()
            if form == "with" and len(root) == 1 and x < 0.2:
                acts.append(self.pick(("cancel",), ("sig", self.pick("TERM", "USR1", "HUP"))))
            elif x < 0.45:
                acts.append(("raise",))
            if self.p(0.2):
                acts.append(("sleep", 0.2))
            scen["body"] = acts
        if form == "iter" and self.p(0.3):
            scen["brk"] = self.pick(1, 2)
        if self.p(0.2):
            scen["eager"] = True
        if self.p(0.15 if f in ("fail", "sub") else 0.03):
            d = scarce(scen, self.pick)
            if d:
                scen["scarce"] = d
        if self.p(0.1 if f == "fail" else 0.02):
            scen["auditfail"] = (self.pick("start", "signal", "signal", "stop"), self.pick("*", *"abc"))
        return finish(scen)


def random_scenario(seed, focus=""):
    g = Gen(random.Random(seed), focus)
    return g.scenario()
