"""Whole runs of commands, pipelines and process substitutions in the
simulated world, recorded as traces of observable events."""
import asyncio
import fcntl
import os
import signal
import sys
import tempfile

from . import sim
from .script import Chooser, ScriptDriver, pattern

SIGS = {"TERM": signal.SIGTERM, "INT": signal.SIGINT, "KILL": signal.SIGKILL, "NONE": None,
        "USR1": signal.SIGUSR1, "HUP": signal.SIGHUP, "QUIT": signal.SIGQUIT}


class BodyError(Exception):
    "Raised by the caller's own code."


class _NoLoop:
    "For a StreamReader that already has all its data."

    def get_debug(self):
        return False


class Ctx:
    "What the caller owns in one run."

    def __init__(self, world, tmp):
        self.world = world
        self.tmp = tmp
        self.fds = {}  # fd -> (ident, close?)
        self.objs = []
        self.n = 0

    def fd(self, close, data=b""):
        fd = os.memfd_create("user")
        if data:
            os.write(fd, data)
            os.lseek(fd, 0, 0)
        self.fds[fd] = (sim.fd_ident(fd), close)
        return fd

    def path(self, name, data=b""):
        self.n += 1
        p = os.path.join(self.tmp, f"{name}{self.n}")
        with open(p, "wb") as f:
            f.write(data)
        return p


def _redirect(ctx, spec, which):
    "Turn a redirect spec into (object, close)."
    from pathlib import Path

    from shellous import sh

    if spec == "fd":
        return ctx.fd(False, b"abc\n"), False
    if spec == "fdc":
        return ctx.fd(True, b"abc\n"), True
    if spec == "path":
        return Path(ctx.path(which, b"in\n")), False
    if spec == "badpath":
        return Path(ctx.tmp) / "no" / "such", False
    if spec == "capture":
        return sh.CAPTURE, False
    if spec == "devnull":
        return sh.DEVNULL, False
    if spec == "stdout":
        return sh.STDOUT, False
    if spec == "inherit":
        return sh.INHERIT, False
    if spec == "buffer":
        return sh.BUFFER, False
    if spec == "ba":
        b = bytearray()
        ctx.objs.append(b)
        return b, False
    if isinstance(spec, tuple) and spec[0] == "bytes":
        return pattern("in", spec[1]), False
    if spec == "filec":  # caller's file object, to be closed
        fd = ctx.fd(True)
        f = os.fdopen(fd, "w+b", closefd=True)
        ctx.objs.append(f)
        return f, True
    if spec == "reader":
        r = asyncio.StreamReader(loop=_NoLoop())
        r.feed_data(b"xyz")
        r.feed_eof()
        return r, False
    raise sim.WorldError(f"redirect {spec!r}")


def build(spec, ctx, audit):
    from shellous import sh

    if "pipe" in spec:
        p = None
        for s in spec["pipe"]:
            c = build(s, ctx, audit)
            p = c if p is None else (p | c)
        if spec.get("wr"):
            p = p.writable
        return p
    args = [spec.get("path", "/v/" + spec["n"])]
    for a in spec.get("args", ()):
        args.append(build(a, ctx, audit) if isinstance(a, dict) else a)
    cmd = sh(*args)
    given = {}
    for name, method in (("in", "stdin"), ("out", "stdout"), ("err", "stderr")):
        how = spec.get(name)
        if how is not None:
            if how.startswith("same:") if isinstance(how, str) else False:
                o, c = given[how[5:]]  # what another stream is redirected to
            else:
                o, c = _redirect(ctx, how, name)
            given[name] = o, c
            cmd = getattr(cmd, method)(o, close=c)
    opt = dict(spec.get("opt", {}))
    if "sig" in opt:
        opt["cancel_signal"] = SIGS[opt.pop("sig")]
    if spec.get("passfds"):
        close = spec["passfds"] != "keep"
        same = [o for o, c in given.values() if c and isinstance(o, int)] if spec["passfds"] == "same" else []
        opt["pass_fds"] = (ctx.fd(close), *same)
        opt["pass_fds_close"] = close
    if opt.get("pty") == "bad":
        def badpty(_fd):
            raise OSError("bad pty adapter")
        opt["pty"] = badpty
    elif opt.get("pty") == "raw":
        import shellous
        opt["pty"] = shellous.raw(rows=20, cols=40)
    if audit is not None:
        opt["audit_callback"] = audit
    if opt:
        cmd = cmd.set(**opt)
    if spec.get("nocheck"):
        cmd = cmd.result
    elif spec.get("result"):
        cmd = cmd.set(_return_result=True)
    if spec.get("wr"):
        cmd = cmd.writable
    return cmd


class LifeRun:
    "One scenario execution."

    def __init__(self, scen, prefix=(), inject=(), rng=None, eager=False, io_events=False):
        seed = rng.randrange(1 << 20) if rng is not None else 0
        self.scen = scen
        self.inject = list(inject)
        self.chooser = Chooser(prefix, rng)
        self.driver = ScriptDriver(scen["scripts"], self.chooser, io_events)
        slow = 0.004 if scen.get("pty") else 0.0
        self.world = sim.World(self.driver, eager=eager or scen.get("eager", False), slow_io=slow)
        self.driver.world = self.world
        self.world.task_seed = seed
        self.ended = False
        self.begun = False
        self.closed_log = []
        self.user_task = None
        self.iter_ready = {}

    # -- observation -------------------------------------------------------
    def audit(self, phase, info):
        r = info["runner"]
        rc = r.returncode
        sig = info["signal"]
        bad = self.scen.get("auditfail") in ((phase, os.path.basename(r.name)), (phase, "*"))
        self.world.rec(
            "aud", ph=phase, n=os.path.basename(r.name), f=info["failure"],
            s=int(getattr(signal, sig)) if sig else 0,
            rc=-9999 if rc is None else rc, c=bool(r.cancelled), x=bad,
        )
        if bad:
            raise BodyError("audit")

    def end(self, out, res=None, canc=None):
        w = self.world
        self.ended = True
        kw = {"out": out, "code": -9999, "rc": "?", "eb": "-",
              "alive": sum(c.state == "run" for c in w.children),
              "zomb": sum(c.state == "exited" for c in w.children)}
        if res is not None:
            kw["code"] = res.exit_code
            kw["rc"] = "T" if res.cancelled else "F"
            if self.scen.get("eb"):
                kw["eb"] = res.error_bytes.decode("latin1")
        w.rec("end", **kw)

    def classify(self, ex):
        from shellous import ResultError

        if isinstance(ex, ResultError):
            return "ResultError"
        if isinstance(ex, asyncio.CancelledError):
            return "Cancelled"
        if isinstance(ex, TimeoutError):
            return "Timeout"
        if isinstance(ex, BodyError):
            return "Body"
        return type(ex).__name__

    def by_hand(self, what, func, *args):
        w = self.world
        w.rec("call", what=what)
        try:
            func(*args)
        except BodyError:
            w.rec("called")
            w.rec("body", x="Body")
            raise
        w.rec("called")

    async def body(self, run, acts):
        w = self.world
        for a in acts:
            k = a[0]
            if k == "read":
                while True:
                    d = await run.stdout.read(4096)
                    if not d:
                        break
            elif k == "sleep":
                await asyncio.sleep(a[1])
            elif k == "raise":
                w.rec("body", x="Body")
                raise BodyError("body")
            elif k == "cancel":
                self.by_hand("cancel", run.cancel)
            elif k == "sig":
                self.by_hand("sig", run.send_signal, SIGS[a[1]])
            elif k == "write":
                (getattr(run, "stdin", None) or run._runner.stdin).write(pattern("in", a[1]))
            elif k == "closein":
                (getattr(run, "stdin", None) or run._runner.stdin).close()

    async def user(self):
        from shellous import ResultError

        scen = self.scen
        w = self.world
        form = scen["form"]
        acts = scen.get("body", ())
        cmd = self.cmd
        res = None
        self.begun = True
        try:
            if form == "await":
                res = await cmd
                out = "ok"
            elif form == "coro":
                res = await cmd.coro()
                out = "ok"
            elif form == "iter":
                n = 0
                brk = scen.get("brk")
                raised = None
                it = aiter(cmd)
                async for _line in it:
                    n += 1
                    if brk == n:
                        w.rec("body", x="Break")
                        break
                if brk:
                    await it.aclose()
                out = "ok"
            elif form == "prompt":
                async with cmd.prompt() as cli:
                    w.rec("enter")
                    await self.body(cli, acts)
                    w.rec("leave")
                res = cli.result
                out = "ok"
            elif form == "with":
                left = "none"
                async with cmd as run:
                    w.rec("enter")
                    await self.body(run, acts)
                    w.rec("leave")
                w.rec("after")
                res = run.result()
                out = "ok"
            else:
                raise sim.WorldError(form)
        except BaseException as ex:
            if isinstance(ex, sim.WorldError):
                raise
            out = self.classify(ex)
            if isinstance(ex, ResultError):
                res = ex.result
            self.exc = ex
        from shellous import Result

        self.end(out, res if isinstance(res, Result) else None)
        for _ in range(8):
            await asyncio.sleep(0)
        self.snapshot()
        try:
            await asyncio.sleep(60)
            late = 0
        except asyncio.CancelledError:
            late = 1
        self.late = late

    async def main(self, w):
        scen = self.scen
        w.rec("begin")
        t = self.user_task = asyncio.get_running_loop().create_task(self.user(), name="user")
        await asyncio.wait([t])
        if not t.cancelled() and t.exception() is not None:
            raise t.exception()
        self.post()

    def snapshot(self):
        w = self.world
        base, ctx = self.base, self.ctx
        snap = sim.fd_snapshot()
        can = {fd for fd, ident in w.canaries.items() if snap.get(fd) == ident}
        lost_can = len(w.canaries) - len(can)
        mine = set(ctx.fds)
        leaks = [fd for fd in snap if fd not in base and fd not in can and fd not in mine
                 and fd not in w.child_fds]
        gone = [fd for fd in base if snap.get(fd) != base[fd]]
        uclosed = uopen = 0
        for fd, (ident, close) in ctx.fds.items():
            is_open = snap.get(fd) == ident
            if close and is_open:
                uopen += 1
            if not close and not is_open:
                uclosed += 1
        w.rec("snap", leaks=len(leaks), gone=len(gone), uclosed=uclosed, uopen=uopen,
              dbl=w.dbl + lost_can, tasks=self.n_tasks(), timers=len(w.timers()),
              alive=sum(c.state == "run" for c in w.children),
              zomb=sum(c.state == "exited" for c in w.children))
        self.dbl0 = w.dbl
        self.leaks = leaks

    def n_tasks(self):
        w = self.world
        return sum(t is not self.user_task and t is not w.main_task for t in asyncio.all_tasks(w.loop))

    def post(self):
        w = self.world
        snap = sim.fd_snapshot()
        w.rec("post", late=self.late, dbl=w.dbl - self.dbl0,
              gone=sum(snap.get(fd) != ident for fd, ident in self.base.items()),
              alive=sum(c.state == "run" for c in w.children),
              zomb=sum(c.state == "exited" for c in w.children))

    # -- injections ----------------------------------------------------------
    def arm(self):
        w = self.world
        for item in self.inject:
            k, pos = item[0], item[1]
            w.inject(k, lambda pos=pos: self.fire_cancel(pos))

    def fire_cancel(self, pos):
        w = self.world

        def go():
            t = self.user_task
            if t is None or t.done() or self.ended or not self.begun:
                return
            if t.cancel():
                w.rec("cancel")

        if pos <= 0:
            go()
        else:
            h = asyncio.Handle(go, (), w.loop, None)
            ready = w.loop._ready
            ready.insert(min(pos, len(ready)), h)

    def run(self):
        w = self.world
        scen = self.scen
        for name, exc in scen.get("exec_fail", {}).items():
            w.exec_fail[name] = {
                "enoent": lambda: FileNotFoundError(2, "enoent"),
                "eacces": lambda: PermissionError(13, "eacces"),
                "eagain": lambda: BlockingIOError(11, "eagain"),
                "sub": lambda: sim.subprocess.SubprocessError("preexec"),
            }[exc]
        w.os_fail.update(scen.get("scarce", {}))
        self.tmp = tempfile.mkdtemp(prefix="vf")
        try:
            self.ctx = Ctx(w, self.tmp)
            self.cmd = build(scen["cmd"], self.ctx, self.audit if scen.get("audit", True) else None)
            self.arm()
            sim.track_closes(w)

            def started():
                self.base = sim.fd_snapshot()
                for fd in self.ctx.fds:
                    self.base.pop(fd, None)

            w.on_started = started
            w.run(self.main)
        finally:
            for fd, (ident, _c) in list(self.ctx.fds.items()):
                if sim.fd_ident(fd) == ident:
                    try:
                        sim._real["close"](fd)
                    except OSError:
                        pass
            import shutil

            shutil.rmtree(self.tmp, ignore_errors=True)
        return self.trace()

    def trace(self):
        "The recorded run in the form the trace specification reads."
        names = [c.name for c in self.world.children]
        evs = []
        for e in self.world.events:
            e = dict(e)
            if "p" in e:
                e["n"] = names[e.pop("p")]
            elif "name" in e:
                e["n"] = e.pop("name")
            if e["k"] == "spawn":
                e.pop("name", None)
            if e["k"] == "spawnfail":
                continue
            evs.append(e)
            if e["k"] == "hang":
                break  # what follows is only the harness cleaning up
        return {"cfg": self.scen["cfg"], "ev": evs}
