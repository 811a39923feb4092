"""Uses of a few command objects, nested and concurrent, in several tasks,
recorded as traces for spec/Nest.tla."""
import asyncio
import contextvars
import random
import signal
import sys

from . import sim

USE = contextvars.ContextVar("vfuse", default=-1)


class BodyError(Exception):
    pass


class NestDriver(sim.Driver):
    """A child writes its token, then echoes each line with its token (or, as
    a later stage, copies lines), and exits with a status of its own at the end
    of its input."""

    def __init__(self, run):
        super().__init__()
        self.run = run
        self.rng = run.rng

    def on_spawn(self, c):
        c.use = USE.get()
        c.buf = f"T{c.index}\n".encode()
        c.inp = b""
        c.done = False
        c.disp = {10: "ignore"}
        if self.rng.random() < 0.3:
            c.disp[15] = ("later", (0.5, 30 + c.index))
        c.wake = None
        c.slow = self.rng.random() < 0.3
        c.death_t = None
        self.run.ev("spawn", c=c.index + 1, u=c.use)

    def on_exit(self, c):
        self.run.ev("exit", c=c.index + 1, code=c.code)

    def act(self, c):
        now = self.world.now
        if c.state == "run":
            if c.pending_death is not None:
                if c.death_t is None:
                    c.death_t = now + c.pending_death[0]
                if now >= c.death_t:
                    return "die"
            if c.buf:
                return "w" if c.writable(1) else None
            if c.done:
                if c.slow and c.wake is None:
                    c.wake = now + 0.3
                return "x" if c.wake is None or now >= c.wake else None
            return "r" if c.readable(0) else None
        if c.state != "run" and not c.notified:
            return "n"
        return None

    def do(self, c, a):
        if a == "w":
            n = c.write(1, c.buf)
            if n < 0:
                c.exit(-13)
            else:
                c.buf = c.buf[n:]
        elif a == "r":
            d = c.read(0)
            if d is None:
                return
            if not d:
                c.done = True
                return
            c.inp += d
            *lines, c.inp = c.inp.split(b"\n")
            for line in lines:
                if line[:1] == b"S":
                    self.run.ev("got", c=c.index + 1, su=int(line[1:].split(b".")[0]))
                    c.buf += b"E%d:%s\n" % (c.index, line)
                else:
                    c.buf += line + b"\n"
        elif a == "x":
            c.exit(1 + c.index)
        elif a == "die":
            c.exit(c.pending_death[1])
        else:
            c.notify()

    def quiescent(self, timeout):
        w = self.world
        acts = [(c, a) for c in w.children if (a := self.act(c))]
        if acts:
            self.do(*self.rng.choice(acts))
            return
        wakes = [t for c in w.children if c.state == "run" for t in (c.wake, c.death_t) if t is not None and t > w.now]
        times = w.timers()[:1] + wakes
        if not times or min(times) > w.t0 + 100:
            w.abort("stuck")
            return
        w.now = max(w.now, min(times))


class NestRun:
    def __init__(self, seed, focus=""):
        self.rng = random.Random(f"nest{seed}{focus}")
        self.driver = NestDriver(self)
        self.world = sim.World(self.driver, max_iter=20000, eager=self.rng.random() < 0.2)
        self.driver.world = self.world
        self.world.task_seed = self.rng.randrange(1 << 20)
        self.alike = self.world.task_seed % 2 == 0
        self.evs = []
        self.nu = self.nt = 0
        self.tasks = []
        self.focus = focus
        self.budget = 14  # uses

    def ev(self, k, **kw):
        self.evs.append({"k": k, **kw})

    # -- programs ---------------------------------------------------------
    def make_ops(self, depth, top=False):
        r = self.rng
        ops = []
        for _ in range(r.choice([1, 1, 2, 3]) if depth else r.choice([1, 2, 3])):
            k = r.random()
            if k < 0.5 and depth < 4 and self.budget > 0:
                self.budget -= 1
                form = r.choice(["with"] * 6 + ["await", "iter", "prompt"])
                o = r.choice([0, 0, 0, 1, 2, 3, 4]) if form == "with" else r.choice([2, 2, 4])
                ops.append(("use", form, o, self.make_ops(depth + 1) if form == "with" else (), r.random() < 0.5))
            elif k < 0.6 and depth < 3 and self.budget > 1 and self.nforks < 4:
                self.nforks += 1
                ops.append(("fork", self.make_ops(depth + 1), r.random() < 0.6))
            elif k < 0.68 and self.budget > 1:
                n = r.choice([2, 2, 3])
                objs = r.sample([0, 1, 2, 3, 4], n)
                self.budget -= n
                order = list(range(n))
                r.shuffle(order)
                ops.append(("manual", objs, order))
            elif k < 0.74 and depth:
                ops.append(("sig",))
            elif k < 0.78 and depth:
                ops.append(("raise",))
                break
            elif k < 0.82:
                ops.append(("sleep", r.choice([0.0, 0.1, 0.4])))
            elif k < 0.9:
                ops.append(("send",))
            else:
                ops.append(("recv",))
        return ops

    # -- the caller ----------------------------------------------------------
    def new_use(self, t, o, form):
        self.nu += 1
        self.ev("enter", u=self.nu, t=t, o=o, form=form)
        USE.set(self.nu)
        return self.nu

    def left(self, u, out, code=-1, toks=()):
        self.ev("left", u=u, out=out, code=code, toks=sorted(set(toks)))

    @staticmethod
    def classify(ex):
        if isinstance(ex, asyncio.CancelledError):
            return "Cancelled"
        return {"BodyError": "Body"}.get(type(ex).__name__, type(ex).__name__)

    def toks(self, b):
        "Children whose tokens are in the output."
        out = []
        for line in b.replace(b"\r", b"").split(b"\n"):
            if line[:1] == b"T":
                out.append(int(line[1:]) + 1)
            elif line[:1] == b"E":
                out.append(int(line[1:].split(b":")[0]) + 1)
        return out

    async def task(self, t, ops):
        self.ev("task", t=t)
        try:
            await self.ops(t, ops, None)
            out = "ok"
        except BaseException as ex:
            if isinstance(ex, sim.WorldError):
                raise
            out = self.classify(ex)
        self.ev("done", t=t, out=out)

    def fork(self, ops):
        self.nt += 1
        t = self.nt
        # Tasks are told apart by themselves, not by their names.
        task = asyncio.get_running_loop().create_task(self.task(t, ops), name="job" if self.alike else None)
        self.tasks.append((t, task))
        return task

    async def ops(self, t, ops, cur):
        "cur: [use, run, lines sent, lines that will come]"
        joins = []
        for op in ops:
            k = op[0]
            if k == "sleep":
                await asyncio.sleep(op[1])
            elif k == "raise":
                raise BodyError
            elif k == "fork":
                task = self.fork(op[1])
                if op[2]:
                    joins.append(task)
            elif k == "sig":
                if cur is not None and hasattr(cur[1], "send_signal"):
                    self.ev("call", u=cur[0])
                    cur[1].send_signal(signal.SIGUSR1)
            elif k == "send":
                await self.send(cur)
            elif k == "recv":
                await self.recv(cur)
            elif k == "manual":
                await self.manual(t, op)
            else:
                try:
                    await self.use(t, *op[1:4])
                except BodyError:
                    if not op[4]:
                        raise
        for task in joins:
            await asyncio.wait([task])

    async def send(self, cur):
        if cur is None or getattr(cur[1], "stdin", None) is None:
            return
        cur[2] += 1
        cur[3] += 1
        cur[1].stdin.write(f"S{cur[0]}.{cur[2]}\n".encode())
        await cur[1].stdin.drain()

    async def recv(self, cur):
        if cur is None or getattr(cur[1], "stdout", None) is None or not cur[3]:
            return
        line = await cur[1].stdout.readline()
        if not line:
            self.ev("line", u=cur[0], c=0, su=0)
            return
        cur[3] -= 1
        c = self.toks(line)
        su = int(line.split(b"S")[1].split(b".")[0]) if b"S" in line else 0
        self.ev("line", u=cur[0], c=c[0] if c else 0, su=su)

    def outcome(self, u, run):
        "What the run that was entered says about itself, after the block."
        try:
            res = run.result()
        except BaseException as ex:
            if isinstance(ex, asyncio.CancelledError):
                self.left(u, "Cancelled")
            else:
                self.left(u, type(ex).__name__)
            raise
        self.left(u, "ok", res.exit_code, self.toks(res.output_bytes))

    def close(self, run):
        if getattr(run, "stdin", None) is not None:
            run.stdin.close()

    async def use(self, t, form, o, body):
        x = self.objs[o]
        u = self.new_use(t, o, form)
        try:
            if form == "await":
                res = await x
                self.left(u, "ok", res.exit_code, self.toks(res.output_bytes))
                return
            if form == "iter":
                toks = []
                async for line in x:
                    toks += self.toks(line.encode())
                self.left(u, "ok", -1, toks)
                return
            if form == "prompt":
                async with x.prompt() as cli:
                    await cli.send(f"S{u}.1")
                    cli.close()
                    out = await cli.read_all()
                self.left(u, "ok", cli.result.exit_code, self.toks(out.encode()))
                return
        except BaseException as ex:
            self.left(u, self.classify(ex))
            raise
        run = None
        try:
            async with x as run:
                self.ev("entered", u=u)
                try:
                    await self.ops(t, body, [u, run, 0, 2 if o == 3 else 1])
                    self.close(run)
                except BaseException as ex:
                    self.ev("leave", u=u, why=self.classify(ex))
                    raise
                self.ev("leave", u=u, why="ok")
        except BaseException as ex:
            self.left(u, self.classify(ex))
            raise
        self.outcome(u, run)

    async def manual(self, t, op):
        "Several objects entered and left by hand, not in order."
        open_ = []
        err = None
        try:
            for o in op[1]:
                u = self.new_use(t, o, "with")
                try:
                    run = await self.objs[o].__aenter__()
                except BaseException as ex:
                    self.left(u, self.classify(ex))
                    raise
                self.ev("entered", u=u)
                open_.append((u, self.objs[o], run, [u, run, 0, 2 if o == 3 else 1]))
            for _ in range(3):
                cur = self.rng.choice(open_)[3]
                await (self.send(cur) if self.rng.random() < 0.5 else self.recv(cur))
        except BaseException as ex:
            err = ex
        order = [open_[k] for k in op[2] if k < len(open_)]
        for u, x, run, _ in order:
            if err is None:
                self.close(run)
                self.ev("leave", u=u, why="ok")
            else:
                self.ev("leave", u=u, why=self.classify(err))
            try:
                sup = await x.__aexit__(type(err) if err else None, err, None)
                if err is not None and not sup:
                    self.left(u, self.classify(err))
                else:
                    self.outcome(u, run)
            except BaseException as ex:
                if self.evs[-1]["k"] != "left" or self.evs[-1]["u"] != u:
                    self.left(u, self.classify(ex))
                err = ex
        if err is not None:
            raise err

    async def main(self, w):
        from shellous import sh

        codes = range(-255, 256)
        wide = dict(exit_codes=codes, _return_result=True)
        a = sh("/v/a").stdin(sh.CAPTURE).stdout(sh.CAPTURE).set(**wide)
        a2 = sh("/v/a").stdin(sh.CAPTURE).stdout(sh.CAPTURE).set(**wide)
        b = sh("/v/b").set(**wide)
        p = sh("/v/a").stdin(sh.CAPTURE).set(exit_codes=codes) | sh("/v/c").stdout(sh.CAPTURE).set(**wide)
        q = sh("/v/b").set(exit_codes=codes) | sh("/v/c").set(**wide)
        self.objs = [a, a2, b, p, q]
        self.nforks = 0
        for _ in range(self.rng.choice([1, 1, 2, 3])):
            self.fork(self.make_ops(0))
        while any(not t.done() for _, t in self.tasks):
            await asyncio.wait([t for _, t in self.tasks if not t.done()])
        for _, t in self.tasks:
            t.result()
        for _ in range(5):
            await asyncio.sleep(0)
        self.ev("end", alive=sum(c.state != "reaped" for c in w.children),
                tasks=sum(t is not w.main_task for t in asyncio.all_tasks(w.loop)))

    def cancel_one(self):
        live = [(t, x) for t, x in self.tasks if not x.done()]
        if live:
            t, x = self.rng.choice(live)
            if x.cancel():
                self.ev("cancel", t=t)

    def run(self):
        w = self.world
        if self.focus == "cancel" or self.rng.random() < 0.4:
            for _ in range(self.rng.choice([1, 1, 2, 3])):
                w.inject(self.rng.randrange(3, 150), self.cancel_one)
        rec = w.rec

        def sig(k, **kw):
            rec(k, **kw)
            if k == "sig":
                self.ev("sig", c=kw["p"] + 1, sig=kw["sig"])
            elif k in ("reap", "stolen"):
                self.ev(k, c=kw["p"] + 1)
            elif k == "hang":
                self.ev("hang")

        w.rec = sig
        w.run(self.main)
        evs = self.evs
        for k, e in enumerate(evs):
            if e["k"] == "hang":
                evs = evs[: k + 1]
                break
        return {"cfg": {"usr1": 10}, "ev": evs}
