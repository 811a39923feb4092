"""Scripted child processes and the scheduler that runs them.

A child program is a list of operations; an operation is enabled when the
descriptor it needs is ready. Whenever the event loop has nothing to do, one
enabled operation of some child (or the delivery of an exit notice) is chosen;
when there is none, virtual time moves on.
"""
import random

from . import sim

_PAT = {}


def pattern(tag, n):
    "A byte string in which position can be recognised."
    key = (tag,)
    cur = _PAT.get(key, b"")
    if len(cur) < n:
        cur = random.Random(f"pat{tag}").randbytes(max(n, 4096, 2 * len(cur)))
        cur = bytes(32 + (b & 63) for b in cur)
        _PAT[key] = cur
    return cur[:n]


def text_pattern(tag, n):
    "Printable position-coded ASCII lines."
    out = bytearray()
    i = 0
    while len(out) < n:
        out += b"%s%05x\n" % (tag.encode(), i)
        i += 1
    return bytes(out[:n])


class Chooser:
    "Replays a prefix of choices, then takes the first (or a random) option."

    def __init__(self, prefix=(), rng=None, limit=None):
        self.prefix = list(prefix)
        self.rng = rng
        self.log = []  # (chosen, number of options)

    def __call__(self, n):
        if n <= 1:
            return 0
        k = len(self.log)
        if k < len(self.prefix):
            c = min(self.prefix[k], n - 1)
        elif self.rng is not None:
            c = self.rng.randrange(n)
        else:
            c = 0
        self.log.append((c, n))
        return c

    def next_prefix(self):
        "Depth-first successor of this run's choices; None when exhausted."
        log = self.log
        for k in range(len(log) - 1, -1, -1):
            c, n = log[k]
            if c + 1 < n:
                return [x for x, _ in log[:k]] + [c + 1]
        return None


class Prog:
    def __init__(self, spec):
        self.ops = list(spec.get("ops", ()))
        self.disp = dict(spec.get("disp", {}))
        self.lag = spec.get("lag", 0.0)
        self.release = spec.get("release")  # seconds after exit
        self.pc = 0
        self.off = 0
        self.wake = None
        self.buf = b""
        self.eof = False
        self.exit_t = None
        self.death_t = None


class ScriptDriver(sim.Driver):
    time_limit = 400.0

    def __init__(self, scripts, chooser=None, io_events=False):
        super().__init__()
        self.scripts = scripts
        self.choose = chooser or Chooser()
        self.io_events = io_events
        self.hooks = []  # extra environment actions: objects with enabled()/fire()/wake
        self.n_quiet = 0
        self.on_close_cb = None

    # -- world callbacks ---------------------------------------------------
    def on_spawn(self, child):
        spec = self.scripts.get(child.name) or self.scripts.get("*") or {}
        child.prog = Prog(spec)
        child.disp = {}
        for k, v in child.prog.disp.items():
            child.disp[k] = v

    def on_exit(self, child):
        child.prog.exit_t = self.world.now

    # -- scheduling ----------------------------------------------------------
    def _enabled(self, c):
        now = self.world.now
        p = c.prog
        if c.state == "run":
            if c.pending_death is not None:
                if p.death_t is None:
                    p.death_t = now + c.pending_death[0]
                if now >= p.death_t - 1e-9:
                    return "die"
                if p.disp.get("stop_on_signal"):
                    return None
            op = p.ops[p.pc] if p.pc < len(p.ops) else ("x", 0)
            k = op[0]
            if k == "w":
                return "w" if c.writable(op[1]) else None
            if k in ("r", "rall", "sink"):
                return k if c.readable(op[1] if len(op) > 1 and k != "r" else 0) else None
            if k == "cat":
                if p.buf:
                    return "cat" if c.writable(1) else None
                return "cat" if c.readable(0) else None
            if k == "sleep":
                if p.wake is None:
                    p.wake = now + op[1]
                return "sleep" if now >= p.wake - 1e-9 else None
            if k == "wait":
                return None
            return k
        if c.state == "exited" and not c.notified:
            if now >= p.exit_t + p.lag - 1e-9:
                return "notify"
            return None
        if c.stolen and not c.notified:
            if now >= p.exit_t + p.lag - 1e-9:
                return "notify"
        if c.holders and p.release is not None and p.exit_t is not None:
            if now >= p.exit_t + p.release - 1e-9:
                return "release"
        return None

    def _wakes(self, c):
        p = c.prog
        now = self.world.now
        if c.state == "run":
            if c.pending_death is not None and p.death_t is not None and p.death_t > now:
                yield p.death_t
            if p.wake is not None and p.wake > now:
                yield p.wake
        elif not c.notified:
            t = p.exit_t + p.lag
            if t > now:
                yield t
        if c.holders and p.release is not None and p.exit_t is not None:
            t = p.exit_t + p.release
            if t > now:
                yield t

    def _do(self, c, what):
        p = c.prog
        w = self.world
        if what == "die":
            c.exit(c.pending_death[1])
        elif what == "notify":
            c.notify()
        elif what == "release":
            c.release()
        elif what == "sleep":
            p.wake = None
            p.pc += 1
        else:
            op = p.ops[p.pc] if p.pc < len(p.ops) else ("x", 0)
            k = op[0]
            if k == "w":
                data = op[2]
                n = c.write(op[1], data[p.off : p.off + op[3]] if len(op) > 3 else data[p.off :])
                if n < 0:
                    # the reader is gone: die of SIGPIPE like most programs
                    if c.disp.get("epipe") == "ignore":
                        p.off = 0
                        p.pc += 1
                    else:
                        c.exit(-13)
                    return
                if self.io_events and n:
                    w.rec("cw", p=c.index, fd=op[1], n=n)
                p.off += n
                if p.off >= len(data):
                    p.off = 0
                    p.pc += 1
            elif k == "r":
                data = c.read(0, op[1])
                if data is not None:
                    if self.io_events:
                        w.rec("cr", p=c.index, n=len(data))
                    p.pc += 1
            elif k == "rall":
                data = c.read(0, op[1] if len(op) > 1 and op[1] else 65536) if len(op) < 3 else c.read(op[2], op[1])
                if data is not None:
                    if self.io_events:
                        w.rec("cr", p=c.index, n=len(data))
                    if not data:
                        p.pc += 1
            elif k == "cat":
                if p.buf:
                    n = c.write(1, p.buf)
                    if n < 0:
                        c.exit(-13)
                        return
                    if self.io_events and n:
                        w.rec("cw", p=c.index, fd=1, n=n)
                    p.buf = p.buf[n:]
                else:
                    data = c.read(0, op[1] if len(op) > 1 else 65536)
                    if data is None:
                        return
                    if self.io_events:
                        w.rec("cr", p=c.index, n=len(data))
                    if not data:
                        p.pc += 1
                    else:
                        p.buf = data
            elif k == "close":
                c.close(op[1])
                p.pc += 1
            elif k == "hold":
                c.hold(*op[1:])
                p.pc += 1
            elif k == "x":
                c.exit(op[1])
            else:
                raise sim.WorldError(f"bad op {op!r}")

    def quiescent(self, timeout):
        w = self.world
        self.n_quiet += 1
        acts = []
        for c in w.children:
            what = self._enabled(c)
            if what is not None:
                acts.append((c, what))
        for h in self.hooks:
            if h.enabled(w):
                acts.append((h, None))
        if acts:
            c, what = acts[self.choose(len(acts))]
            if what is None:
                c.fire(w)
            else:
                self._do(c, what)
            return
        wakes = [t for c in w.children for t in self._wakes(c)]
        wakes += [h.wake(w) for h in self.hooks if h.wake(w) is not None and h.wake(w) > w.now]
        nxt = min(wakes) if wakes else None
        timers = w.timers()
        if nxt is None and not timers:
            w.abort("stuck")
            return
        if timers and (nxt is None or timers[0] <= nxt):
            to = timers[0]
        else:
            to = nxt
        if to > w.t0 + self.time_limit:
            w.abort("late")
            return
        w.now = max(w.now, to)
