"""The library's child watcher on a pretended kernel, many threads, recorded as
traces for spec/Watch.tla."""
import asyncio
import errno
import random
import threading

from . import threads


class Loop(asyncio.BaseEventLoop):
    "An event loop that waits in the threads' scheduler."

    def __init__(self, sched):
        super().__init__()
        self.sched = sched
        self.woken = False
        self.until = None
        self._selector = self

    def time(self):
        return self.sched.now

    def _process_events(self, events):
        pass

    def _write_to_self(self):
        self.woken = True

    def select(self, timeout):
        s = self.sched
        if timeout is not None and timeout <= 0:
            s.point(True)
        else:
            end = None if timeout is None else s.now + timeout
            self.until = end
            s.park(lambda: self.woken or (end is not None and s.now >= end))
            self.until = None
        self.woken = False
        return []


def random_scenario(seed, focus=""):
    r = random.Random(f"watch{seed}{focus}")
    clients = []
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        ops = []
        for _ in range(r.choice([1, 2, 2, 3, 4])):
            ops.append(dict(op="spawn", code=r.choice([0, 0, 1, 3, 255, -9, -15, 77]),
                            life=r.choice(["quick", "quick", "any", "any", "late", "long"]),
                            fail=r.choice(["", "", "", "emfile", "enospc"]) if focus == "fault" else "",
                            pre=r.random() < 0.2))
            k = r.random()
            if k < 0.25:
                ops.append(dict(op="sleep", n=r.choice([0, 0.01, 0.2])))
            elif k < 0.5:
                ops.append(dict(op="wait"))
        clients.append(dict(ops=ops, leave=r.random() < 0.12))
    return dict(clients=clients, strategy="thread" if r.random() < 0.35 and focus != "fault" else "auto",
                steal=r.random() < 0.3, orphans=r.random() < 0.25, twice=r.random() < 0.3,
                density=r.choice([0.01, 0.05, 0.2, 0.5]), reuse=r.choice([0, 0.5, 1.0]))


class WatchRun:
    def __init__(self, sc, seed):
        self.sc = sc
        self.rng = random.Random(seed)
        self.evs = []
        self.sched = threads.Sched(self.rng, sc["density"])
        self.kernel = threads.Kernel(self.sched, self.ev)
        self.kernel.reuse = sc["reuse"]
        self.sched.env = self.env
        self.loops = []
        self.left = 0

    def ev(self, k, **kw):
        self.evs.append({"k": k, **kw})

    # -- what the world does by itself ---------------------------------------
    def env(self):
        k, s = self.kernel, self.sched
        acts = []
        for c in k.children:
            if c.state == "run":
                if c.die_at is not None:
                    if c.die_at <= s.now:
                        acts.append((0, lambda c=c: k.exit(c)))
                    else:
                        acts.append((c.die_at, lambda c=c: self.advance(c.die_at)))
                elif c.life != "never":
                    w = {"quick": 0.5, "any": 0.08, "late": 0.0, "long": 0.0}[c.life]
                    if self.rng.random() < w:
                        acts.append((0, lambda c=c: k.exit(c)))
                    else:
                        t = c.born + (6 if c.life == "long" else 0.3)
                        acts.append((max(t, s.now), lambda c=c, t=t: self.late(c, t)))
            elif c.state == "exited" and self.sc["steal"] and c.attached and self.rng.random() < 0.15:
                acts.append((0, lambda c=c: k.reap(c, "thief")))
        for lp in self.loops:
            if lp.until is not None and lp.until > s.now:
                acts.append((lp.until, lambda t=lp.until: self.advance(t)))
        return acts

    def advance(self, t):
        self.sched.now = max(self.sched.now, t)

    def late(self, c, t):
        self.advance(t)
        if c.state == "run":
            self.kernel.exit(c)

    # -- clients ------------------------------------------------------------
    def told(self, pid, status, c, loop, fut):
        c.told = True
        self.ev("told", c=c.num, pid=pid, status=status, same=pid == c.pid)
        loop.call_soon_threadsafe(fut.set_result, status)

    async def client(self, cl, loop):
        futs = []
        for op in cl["ops"]:
            if op["op"] == "sleep":
                await asyncio.sleep(op["n"])
            elif op["op"] == "wait":
                if futs and not cl["leave"]:
                    await asyncio.wait(futs)
            else:
                c = self.kernel.spawn(op["code"])
                c.life = op["life"]
                c.attached = False
                c.born = self.sched.now
                self.ev("spawn", c=c.num, pid=c.pid)
                if op["pre"]:
                    c.life = "quick"
                    self.sched.park(lambda c=c: c.state != "run")
                if op["fail"]:
                    call = "pidfd_open" if op["fail"] == "emfile" else "register"
                    self.kernel.fail[call, c] = errno.EMFILE if op["fail"] == "emfile" else errno.ENOSPC
                fut = loop.create_future()
                futs.append(fut)
                self.ev("attach", c=c.num)
                try:
                    self.watcher.add_child_handler(c.pid, self.told, c, loop, fut)
                    self.ev("attached", c=c.num, ex="")
                except Exception as ex:
                    self.ev("attached", c=c.num, ex=type(ex).__name__)
                c.attached = True
        if futs and not cl["leave"]:
            await asyncio.wait(futs)

    def run_client(self, cl):
        loop = Loop(self.sched)
        self.loops.append(loop)
        try:
            loop.run_until_complete(self.client(cl, loop))
            if cl["leave"]:
                self.ev("gone")
        finally:
            if not self.sched.aborting:
                for t in asyncio.all_tasks(loop):
                    t.cancel()
                loop.run_until_complete(asyncio.sleep(0))
            self.loops.remove(loop)
            loop.close()

    def main(self):
        from shellous.watcher import DefaultChildWatcher

        for rnd in range(2 if self.sc["twice"] else 1):
            if rnd == 0 or self.rng.random() < 0.5:
                by_thread = self.sc["strategy"] == "thread" or (rnd == 1 and self.rng.random() < 0.3)
                self.watcher = DefaultChildWatcher(thread_strategy=by_thread)
            elif by_thread:
                by_thread = None  # what it uses when it is opened again is its own choice
            self.ev("open")
            ts = [threading.Thread(target=self.run_client, args=(cl,), name=f"client{i}")
                  for i, cl in enumerate(self.sc["clients"])]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
                if t._vf.error is not None:
                    raise t._vf.error
            if any(cl["leave"] for cl in self.sc["clients"]):
                self.sched.park(lambda: all(c.told or c.fault or c.orphan for c in self.kernel.children))
            if self.sc["orphans"]:
                self.orphans()
            self.ev("close")
            self.watcher.close()
            live = [m for m in self.sched.threads if m.state != "over" and m.name != "main"]
            self.ev("closed", threads=len(live), fds=len(self.kernel.fds), strategy="auto" if by_thread is False else "any",
                    running=sum(c.state == "run" for c in self.kernel.children))
            if self.sc["orphans"]:
                for c in self.kernel.children:
                    if c.life == "never":
                        c.life = "quick"
                self.sched.park(lambda: all(c.state != "run" for c in self.kernel.children))
        for _ in range(200):
            self.sched.point(True)
        others = [m for m in self.sched.threads if m.name != "main"]
        for _ in range(5000):
            if all(m.state in ("over", "park") for m in others):
                break
            self.sched.point(True)
        self.left = sum(m.state != "over" for m in others)

    def orphans(self):
        "Children that still run when the watcher is closed."
        loop = Loop(self.sched)
        for _ in range(self.rng.choice([1, 2])):
            c = self.kernel.spawn(0)
            c.born = self.sched.now
            c.life, c.attached, c.orphan = "never", True, True
            self.ev("spawn", c=c.num, pid=c.pid)
            self.ev("attach", c=c.num)
            self.watcher.add_child_handler(c.pid, self.told, c, loop, loop.create_future())
            self.ev("attached", c=c.num, ex="")

    def run(self):
        threads.install()
        threads.KERNEL = self.kernel
        try:
            self.sched.run(self.main)
        finally:
            threads.KERNEL = None
        for m in self.sched.threads:
            if m.error is not None:
                self.ev("died", main=m.name == "main", ex=type(m.error).__name__)
        if self.sched.aborting:
            self.ev("hang", why=self.sched.aborting)
        self.ev("end", clean=not self.sched.aborting, threads=self.left)
        return {"cfg": {"strategy": self.sc["strategy"]}, "ev": self.evs}


def warm():
    "The first run in a process is traced differently by the interpreter."
    for strategy in ("auto", "thread"):
        sc = random_scenario(1)
        sc["strategy"] = strategy
        WatchRun(sc, 1).run()
