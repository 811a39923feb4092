"""harvest() and harvest_results() with scripted awaitables, recorded for spec/Harvest.tla."""
import asyncio
import random

from . import sim

NO_TIME = 1000000000


class Custom(Exception):
    pass


KINDS = {"V": ValueError, "X": Custom, "R": RuntimeError, "A": AssertionError, "T": asyncio.TimeoutError,
         "O": OSError, "K": KeyError}


class Idle(sim.Driver):
    "Nothing but timers."

    def quiescent(self, timeout):
        w = self.world
        if not w.timers() or w.timers()[0] > w.t0 + 300:
            w.abort("stuck")
        else:
            w.advance()


class Box:
    "An awaitable that is neither a coroutine nor a future."

    def __init__(self, coro):
        self.coro = coro

    def __await__(self):
        return self.coro.__await__()


class Promise(asyncio.Future):
    "A plain future, that a timer resolves."

    _h = None
    __hash__ = sim.DetTask.__hash__

    def __init__(self, run, k, prog):
        super().__init__(loop=asyncio.get_running_loop())
        self.run, self.k, self.prog = run, k, prog
        run.world.rec("tstart", n=k)
        self.timer = None
        if prog["steps"]:
            self.timer = self.get_loop().call_later(sum(prog["steps"]), self.resolve)
        else:
            self.resolve()

    def resolve(self):
        run, k, final = self.run, self.k, self.prog["final"]
        if self.done():
            return
        if final == "C":
            run.world.rec("tdone", n=k, how="cancelled", kind="")
            super().cancel()
        elif final == "ret":
            run.world.rec("tdone", n=k, how="ret", kind="")
            v = run.values[k] = self.prog.get("val", object)()
            self.set_result(v)
        else:
            run.world.rec("tdone", n=k, how="exc", kind="R" if final in "RA" else final)
            v = run.values[k] = KINDS[final](k)
            self.set_exception(v)

    def cancel(self, msg=None):
        if self.done():
            return False
        if self.timer:
            self.timer.cancel()
        self.run.world.rec("tcancel", n=self.k)
        self.run.world.rec("tdone", n=self.k, how="cancelled", kind="")
        return super().cancel()


class HarvestRun:
    def __init__(self, scen, inject=()):
        self.scen = scen
        self.inject = inject
        d = Idle()
        self.world = sim.World(d, max_iter=4000, eager=scen.get("eager", False))
        d.world = self.world
        self.task = None
        self.begun = self.ended = False
        self.values = {}

    async def body(self, k, prog):
        w = self.world
        w.rec("tstart", n=k)
        pend = list(prog["steps"])
        reacts = list(prog["reacts"])
        final = prog["final"]
        while pend:
            op = pend[0]
            try:
                await asyncio.sleep(op)
                pend.pop(0)
            except asyncio.CancelledError:
                w.rec("tcancel", n=k)
                r = reacts.pop(0) if reacts else ("die",)
                if r[0] == "die":
                    final = "C"
                    break
                if r[0] == "linger":
                    pend, final = list(r[1]), r[2]
                elif r[0] == "raise":
                    final = r[1]
                    break
        if final == "C":
            w.rec("tdone", n=k, how="cancelled", kind="")
            raise asyncio.CancelledError()
        if final == "ret":
            w.rec("tdone", n=k, how="ret", kind="")
            v = self.values[k] = prog.get("val", object)()
            return v
        w.rec("tdone", n=k, how="exc", kind="R" if final in "RA" else final)
        v = self.values[k] = KINDS[final](k)
        raise v

    def arg(self, k, prog):
        how = prog["as"]
        if how == "future":
            return Promise(self, k, prog)
        c = self.body(k, prog)
        if how == "coro":
            return c
        if how == "box":
            return Box(c)
        return asyncio.get_running_loop().create_task(c)

    async def user(self):
        from shellous.harvest import harvest, harvest_results

        w, scen = self.world, self.scen
        args = [self.arg(k, p) for k, p in enumerate(scen["tasks"], 1)]
        if scen.get("early"):
            await asyncio.sleep(scen["early"])
        self.begun = True
        w.rec("start")
        kw = dict(scen["kw"])
        out, n, res, flag = "ok", 0, [], False
        try:
            if scen["cfg"]["fn"] == "harvest":
                r = await harvest(*args, **kw)
                if r is not None:
                    out = "odd"
            else:
                flag, vals = await harvest_results(*args, **kw)
                res = [self.which(k, v) for k, v in enumerate(vals, 1)]
        except asyncio.CancelledError:
            out = "Cancelled"
        except Exception as ex:
            mine = [k for k, v in self.values.items() if v is ex]
            if mine:
                out, n = "exc", mine[0]
            elif isinstance(ex, asyncio.TimeoutError):
                out = "Timeout"
            elif isinstance(ex, RuntimeError):
                out = "Runtime"
            else:
                out = repr(ex)[:80]
        self.ended = True
        w.rec("end", out=out, n=n, res=res, flag=flag, timers=len(w.timers()))

    def which(self, k, v):
        if k in self.values and self.values[k] is v:
            return dict(k="e" if isinstance(v, Exception) and self.scen["tasks"][k - 1].get("val") is None
                        else "v", n=k)
        if isinstance(v, asyncio.CancelledError):
            return dict(k="c", n=0)
        return dict(k="?", n=0)

    async def main(self, w):
        self.task = asyncio.get_running_loop().create_task(self.user(), name="user")
        await asyncio.wait([self.task])
        self.task.result()
        await asyncio.sleep(40)
        w.rec("left", n=len(asyncio.all_tasks()) - 1)

    def fire(self):
        t = self.task
        if t is not None and self.begun and not self.ended and not t.done() and t.cancel():
            self.world.rec("stop")

    def run(self):
        for k in self.inject:
            self.world.inject(k, self.fire)
        self.world.run(self.main)
        return dict(cfg=self.scen["cfg"], ev=[dict(e) for e in self.world.events])


TIMES = [0, 0, 0, 0.1, 0.5, 0.5, 1.0, 1.0, 2.0, 5.0]


def random_scenario(seed):
    r = random.Random(f"h{seed}")
    n = r.choice([1, 2, 2, 3, 3, 4, 5])
    calm = r.random() < 0.25
    tasks = []
    for k in range(n):
        steps = [r.choice(TIMES) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        final = "ret" if calm or r.random() < 0.55 else r.choice("VXRATOKCVV")
        reacts = []
        for _ in range(r.choice([0, 0, 1, 2])):
            x = r.random()
            if x < 0.3:
                reacts.append(("linger", [r.choice([0, 0.1, 1.0, 3.0, 30.0])], r.choice(["C", "ret", "V", "R"])))
            elif x < 0.55:
                reacts.append(("ignore",))
            elif x < 0.85:
                reacts.append(("raise", r.choice(["V", "X", "ret", "R", "T"])))
            else:
                reacts.append(("die",))
        tasks.append(dict(steps=steps, final=final, reacts=reacts, **{"as": r.choice(["coro", "coro", "task", "box", "future"])}))
    fn = r.choice(["harvest", "results"])
    kw, cfg = {}, dict(fn=fn, n=n, tmo=NO_TIME, ctmo=15000, finish=False)
    if r.random() < 0.45:
        kw["timeout"] = r.choice([0, 0.3, 0.5, 1.0, 1.5, 4.0, 10.0])
        cfg["tmo"] = int(kw["timeout"] * 1000)
    if r.random() < 0.5:
        kw["cancel_timeout"] = r.choice([0.05, 0.7, 2.0, 20.0])
        cfg["ctmo"] = int(kw["cancel_timeout"] * 1000)
    if fn == "harvest" and r.random() < 0.3:
        kw["cancel_finish"] = cfg["finish"] = True
    sc = dict(tasks=tasks, kw=kw, cfg=cfg)
    if r.random() < 0.2:
        sc["early"] = r.choice([0.05, 0.7])
    return sc
