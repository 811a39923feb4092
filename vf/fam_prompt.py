"""Prompt sessions with a scripted child, recorded for spec/Prompt.tla."""
import asyncio
import codecs
import random
import re

from . import sim
from .script import Chooser

FILL = 10000000
ODD = FILL - 1  # stands for the rest of a text that is none of ours
NO_TIME = 1000000000


def tok(s):
    "Text as tokens."
    out = []
    for c in s:
        if c == "x":
            if out and out[-1] > FILL:
                out[-1] += 1
            else:
                out.append(FILL + 1)
        elif len(out) < 1500:
            out.append(ord(c))
        else:
            return [*out, ODD]
    return out


class TalkDriver(sim.Driver):
    time_limit = 200.0

    def __init__(self, run, scripts, chooser):
        super().__init__()
        self.run, self.scripts, self.choose = run, scripts, chooser
        self.last_idle = None

    def on_spawn(self, c):
        c.ops = list(self.scripts[c.name])
        c.pc = 0
        c.done = 0
        c.buf = b""
        c.wake = None
        c.main = c.name == "c"
        enc = self.run.scen["encoding"]
        c.dec_in = codecs.getincrementaldecoder(enc)()
        c.dec_out = codecs.getincrementaldecoder(enc)()
        c.nl = c.reads = 0

    def op(self, c):
        return c.ops[c.pc] if c.pc < len(c.ops) else ("x", 0)

    def enabled(self, c):
        if c.state == "run":
            op = self.op(c)
            k = op[0]
            if k == "w":
                return c.writable(1)
            if k in ("rl", "rall"):
                return (k == "rl" and c.nl > 0) or c.readable(0)
            if k == "cat":
                return c.writable(1) if c.buf else c.readable(0)
            if k == "sleep":
                if c.wake is None:
                    c.wake = self.world.now + op[1]
                return self.world.now >= c.wake - 1e-9
            return True
        return c.state == "exited"

    def step(self, c):
        w = self.world
        if c.state != "run":
            c.notify()
            return
        op = self.op(c)
        k = op[0]
        if k == "w":
            data = op[1][c.done :]
            n = c.write(1, data) if data else 0
            if n < 0:
                c.exit(-13)
                return
            d = tok(c.dec_out.decode(data[:n]))
            if d and c.main:
                w.rec("w", d=d)
            c.done += n
            if c.done >= len(op[1]):
                c.done = 0
                c.pc += 1
        elif k in ("rl", "rall"):
            if k == "rl" and c.nl > 0:
                c.nl -= 1
                c.pc += 1
                return
            c.reads += 1
            data = c.read(0, op[1] if c.reads < 25 else 65536)
            if data is None:
                return
            if data:
                s = c.dec_in.decode(data)
                c.nl += s.count("\n")
                if s:
                    w.rec("r", d=tok(s))
            else:
                w.rec("reof")
                c.pc += 1
        elif k == "cat":
            if c.buf:
                n = c.write(1, c.buf)
                if n < 0:
                    c.exit(-13)
                    return
                c.buf = c.buf[n:]
            else:
                data = c.read(0, 65536)
                if data is None:
                    return
                if data:
                    c.buf = data
                else:
                    c.pc += 1
        elif k == "close":
            c.close(op[1])
            if op[1] == 1:
                w.rec("weof")
            c.pc += 1
        elif k == "sleep":
            c.wake = None
            c.pc += 1
        elif k == "x":
            c.exit(op[1])
        else:
            raise sim.WorldError(f"bad op {op!r}")

    def on_exit(self, c):
        if c.main:
            self.world.rec("gone", code=c.code)

    def quiescent(self, timeout):
        w = self.world
        acts = [c for c in w.children if self.enabled(c)]
        if acts:
            self.step(acts[self.choose(len(acts))])
            return
        blk = []
        for c in w.children:
            if c.main and c.state == "run":
                k = self.op(c)[0]
                if k == "w":
                    blk.append("w")
                elif k in ("rl", "rall"):
                    blk.append("r")
        if blk:
            w.rec("idle", blk=blk)
        times = w.timers()[:1] + [c.wake for c in w.children if c.state == "run" and c.wake is not None and c.wake > w.now]
        if not times or min(times) > w.t0 + self.time_limit:
            w.abort("stuck")
            return
        w.now = max(w.now, min(times))


class Body(Exception):
    pass


class PromptRun:
    def __init__(self, scen, rng=None, inject=()):
        self.scen = scen
        d = TalkDriver(self, scen["scripts"], Chooser((), rng))
        self.world = d.world = sim.World(d, max_iter=20000)
        self.inject = inject
        self.task = None
        self.begun = self.ended = False

    def compile(self, pats, how):
        if pats is None:
            return None
        if how == "str":
            return "".join(pats[0])
        if how == "list":
            return ["".join(p) for p in pats]
        one = lambda c: "[^" + re.escape(c[1:]) + "]*" if c[0] == "^" else re.escape(c) if len(c) == 1 else "[" + re.escape(c) + "]"
        return re.compile("|".join("".join(map(one, p)) for p in pats))

    def pats(self, p):
        "Sets of characters; '^...' means any number of others."
        return [[[-1 if c == "^" else ord(c) for c in s] for s in x] for x in p] if p is not None else []

    async def call(self, cli, op, d, pats, tmo, coro):
        from shellous import Result  # noqa: F401

        w, scen = self.world, self.scen
        if pats is None and op in ("expect", "command"):
            pats = scen["defp"]
        eff = tmo if tmo else scen["dt"]
        w.rec("call", op=op, d=d, pats=self.pats(pats), tmo=int(eff * 1000) if eff else NO_TIME)
        pre, m, err = [], [], None
        try:
            r = await coro
            if op == "expect":
                out, pre, m = "match", tok(r[0]), tok(r[1][0])
            elif op == "command":
                out, pre = "text", tok(r)
                got = self.last_match
                if got is not None:
                    out, m = "match", tok(got)
            elif op == "all":
                out, pre = "text", tok(r)
            else:
                out = "ok"
        except asyncio.CancelledError as ex:
            out, err = "Cancelled", ex
        except asyncio.TimeoutError:
            out = "Timeout"
        except Exception as ex:
            out = type(ex).__name__
        w.rec("ret", out=out, pre=pre, m=m, pend=tok(cli.pending), ateof=cli.at_eof)
        if err is not None:
            raise err

    async def session(self, cli):
        w, scen = self.world, self.scen
        for a in scen["body"]:
            k = a[0]
            if k == "expect":
                _, pats, how, tmo = a
                kw = {} if tmo is None else {"timeout": tmo}
                p = self.compile(pats, how)
                await self.call(cli, "expect", [], pats, tmo, cli.expect(p, **kw) if p is not None else cli.expect(**kw))
            elif k == "send":
                _, text, end, raw, tmo = a
                kw = {} if tmo is None else {"timeout": tmo}
                if end != "\n":
                    kw["end"] = end
                arg = text.encode(scen["encoding"]) if raw else text
                await self.call(cli, "send", tok(text + (end or "")), [], tmo, cli.send(arg, **kw))
            elif k == "all":
                kw = {} if a[1] is None else {"timeout": a[1]}
                await self.call(cli, "all", [], [], a[1], cli.read_all(**kw))
            elif k == "command":
                _, text, pats, tmo, eof = a
                kw = {} if tmo is None else {"timeout": tmo}
                if pats is not None:
                    kw["prompt"] = self.compile(pats, "re")
                if eof:
                    kw["allow_eof"] = True
                await self.call(cli, "command", tok(text + "\n"), pats, tmo, self.command(cli, text, kw))
            elif k == "got":
                s = cli.read_pending()
                w.rec("got", out="", d=tok(s), pend=tok(cli.pending), ateof=cli.at_eof)
            elif k == "sleep":
                await asyncio.sleep(a[1])
            elif k == "close":
                w.rec("close")
                cli.close()
            elif k == "res":
                try:
                    cli.result
                    out = "none"
                except Exception as ex:
                    out = type(ex).__name__
                w.rec("inres", out=out)
            elif k == "raise":
                w.rec("leave")
                raise Body()

    async def command(self, cli, text, kw):
        "command() does not tell the match; see what expect() returned to it."
        self.last_match = None
        expect = cli.expect

        async def spy(*a, **k):
            r = await expect(*a, **k)
            self.last_match = r[1][0]
            return r

        cli.expect = spy
        try:
            return await cli.command(text, **kw)
        finally:
            del cli.expect

    async def user(self):
        from shellous import sh

        w, scen = self.world, self.scen
        c = sh("/v/c")
        if scen["encoding"] != "utf-8":
            c = c.set(encoding=scen["encoding"])
        cmd = c
        if scen["shape"] == "front":
            cmd = sh("/v/cat").set(encoding=scen["encoding"]) | c
        elif scen["shape"] == "back":
            cmd = c | sh("/v/cat").set(encoding=scen["encoding"])
        kw = {}
        if scen["dt"]:
            kw["timeout"] = scen["dt"]
        if scen["cfg"]["norm"]:
            kw["normalize_newlines"] = True
        args = [] if scen["defp"] is None else [self.compile(scen["defp"], scen["defhow"])]
        cli, code = None, 0
        self.begun = True
        try:
            async with cmd.prompt(*args, **kw) as cli:
                await self.session(cli)
                w.rec("leave")
            out, code = "ok", cli.result.exit_code
        except asyncio.CancelledError:
            out = "Cancelled"
        except Exception as ex:
            if isinstance(ex, sim.WorldError):
                raise
            out = type(ex).__name__
            self.exc = ex
        self.ended = True
        w.rec("end", out=out, code=code if code is not None else 9999)

    async def main(self, w):
        self.task = asyncio.get_running_loop().create_task(self.user(), name="user")
        await asyncio.wait([self.task])
        self.task.result()

    def fire(self):
        t = self.task
        if t is not None and self.begun and not self.ended and not t.done() and t.cancel():
            self.world.rec("stop")

    def run(self):
        for k in self.inject:
            self.world.inject(k, self.fire)
        self.world.run(self.main)
        evs = []
        for e in self.world.events:
            e = dict(e)
            if e["k"] == "spawn" and e["name"] == "c":
                evs.append(e)
            if e["k"] in ("spawn", "exit", "reap", "stolen", "spawnfail"):
                continue
            if e["k"] == "gone":
                e["k"] = "exit"
            evs.append(e)
            if e["k"] == "hang":
                break
        return dict(cfg=self.scen["cfg"], ev=evs)


class Gen:
    def __init__(self, seed):
        self.r = random.Random(f"p{seed}")

    def text(self, n):
        r = self.r
        s = ""
        for _ in range(n):
            x = r.random()
            if x < 0.04:
                s += "x" * r.choice([1, 2, 30, 5000, 16384, 20000, 70000])
            elif x < 0.16:
                s += r.choice(self.wide)
            elif x < 0.30:
                s += r.choice(["\r\n", "\n", "\n", "\r"])
            else:
                s += r.choice("aabbc>")
        return s

    def pattern(self, full):
        r = self.r
        if full and r.random() < 0.75:
            k = r.randrange(len(full))
            p = full[k : k + r.choice([1, 1, 2, 2, 3])]
            if "x" not in p:
                return list(p)
        return [r.choice("abc>\n" + self.wide) for _ in range(r.choice([1, 1, 2, 3]))]

    def patterns(self, full):
        r = self.r
        x = r.random()
        if x < 0.4:
            return [self.pattern(full)], "str"
        n = r.choice([1, 2, 2, 3])
        ps = [self.pattern(full) for _ in range(n)]
        if x < 0.65:
            return ps, "list"
        if r.random() < 0.6:
            p = r.choice(ps)
            k = r.randrange(len(p))
            p[k] = "".join(sorted({p[k], *r.sample("abc>\n", 2)}))
        if r.random() < 0.5:
            # A match of any length: up to the next character of some set.
            k = r.randrange(len(ps))
            first = ps[k][0]
            last = r.choice(["c", ">", "\n", self.wide[0], "c>"])
            ps[k] = [first, "^" + last, last]
            if r.random() < 0.3:
                ps[k] = [first, "^" + "".join(sorted({*last, "a"})), last]
        return ps, "re"

    def scenario(self):
        r = self.r
        enc = r.choice(["utf-8", "utf-8", "utf-8", "latin-1", "utf-16-le"])
        self.wide = {"utf-8": "é😀→", "latin-1": "é", "utf-16-le": "é😀"}[enc]
        norm = r.random() < 0.4
        ops, full = [], ""
        for _ in range(r.choice([1, 2, 3, 5, 8])):
            x = r.random()
            if x < 0.6:
                s = self.text(r.choice([1, 2, 4, 8, 20]))
                full += s
                data = s.encode(enc)
                cut = r.choice([1, 2, 3, 7, 1 << 20])
                if len(data) > 40:
                    cut = max(cut, len(data) // 12)
                while data:
                    n = r.randint(1, cut)
                    ops.append(("w", data[:n]))
                    data = data[n:]
                    if r.random() < 0.12:
                        ops.append(("sleep", r.choice([0.01, 0.3, 1.0, 2.0])))
            elif x < 0.85:
                ops.append(("rl", r.choice([1, 100, 65536])))
            else:
                ops.append(("sleep", r.choice([0.1, 0.5, 1.0, 3.0])))
        if r.random() < 0.2:
            ops.append(("close", 1))
        if r.random() < 0.75:
            ops.append(("rall", r.choice([100, 65536])))
        if r.random() < 0.2:
            ops.append(("sleep", 0.2))
        ops.append(("x", r.choice([0, 0, 0, 1, 7])))
        seen = full.replace("\r\n", "\n").replace("\r", "\n") if norm else full
        T = [None, None, None, 0.2, 0.5, 1.0, 2.5]
        dt = r.choice([None, 0.7, 2.0])
        defp, defhow = (None, "str") if r.random() < 0.5 else self.patterns(seen)
        body = []
        for _ in range(r.choice([1, 2, 3, 4, 6, 9])):
            x = r.random()
            if x < 0.42:
                pats, how = self.patterns(seen)
                if r.random() < 0.15:
                    pats = None
                body.append(("expect", pats, how, r.choice(T if dt is None else T)))
            elif x < 0.62:
                text = self.text(r.choice([0, 1, 3, 8])) if r.random() < 0.85 else "x" * r.choice([70000, 200000])
                body.append(("send", text, r.choice(["\n", "\n", "\n", None, "", "\r\n", "b"]), r.random() < 0.2, r.choice(T)))
            elif x < 0.70:
                body.append(("got",))
            elif x < 0.77:
                body.append(("all", r.choice(T)))
            elif x < 0.84:
                pats, how = self.patterns(seen)
                body.append(("command", self.text(2), None if r.random() < 0.3 else pats, r.choice(T), r.random() < 0.4))
            elif x < 0.92:
                body.append(("sleep", r.choice([0, 0.05, 0.4, 1.2])))
            elif x < 0.96:
                body.append(("res",))
            else:
                body.append(("close",))
        if r.random() < 0.3:
            body.append(("all", 5.0))
        if r.random() < 0.05:
            body.append(("raise",))
        closed = [k for k, a in enumerate(body) if a[0] == "close"]
        if closed:  # nothing can be sent after that
            body = body[: closed[0] + 1] + [a for a in body[closed[0] + 1 :] if a[0] not in ("send", "command", "close")]
        shape = r.choice(["one", "one", "one", "front", "back"])
        scripts = {"c": ops, "cat": [("cat",), ("x", 0)]}
        return dict(encoding=enc, scripts=scripts, body=body, shape=shape, dt=dt, defp=defp, defhow=defhow,
                    cfg=dict(norm=norm, solo=shape == "one"))


def random_scenario(seed):
    return Gen(seed).scenario()
