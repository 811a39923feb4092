"""Where the bytes go: runs of the real code with scripted children that move
identifiable data, recorded as traces for spec/RunIO.tla."""
import asyncio
import io
import logging
import os
import random
import shutil
import sys
import tempfile

from . import sim
from .script import Chooser

# One alphabet per source, so that every byte tells its source.
ALPHA = [b"abcdefghijklmnop", b"ABCDEFGHIJKLMNOP", b"qrstuvwxyz012345", b"QRSTUVWXYZ6789!#",
         b"$%&()*+,-./:;<=>", b"?@[]^_`{|}~'\"\t\x0b\x0c"]
WIDE = [0x0391, 0x3041, 0x1F600, 0x0430, 0x4E00, 0xAC00]


class Source:
    "A byte string whose parts can be recognised."

    def __init__(self, tag, index, size, text=None, nl=0, crlf=False, endnl=False):
        self.tag = tag
        rng = random.Random(f"src{tag}{size}{text}{nl}")
        if text == "raw":  # not text; every eighth byte value
            self.data = bytes(b & 0xF8 | index % 8 for b in rng.randbytes(size))
        elif text:
            width = len(chr(WIDE[index]).encode(text))
            n = size // width
            chars = [chr(WIDE[index] + rng.randrange(16)) for _ in range(n)]
            if nl:
                pos = 0
                while True:
                    pos += max(1, int(rng.expovariate(1.0 / nl))) if rng.random() > 0.1 else 1
                    if pos > n:
                        break
                    chars[pos - 1] = "\n"
                if endnl and chars:
                    chars[-1] = "\n"
            self.data = b""
            self.nl = []
            at, parts = 0, []
            for c in chars:
                parts.append(c.encode(text))
                at += len(parts[-1])
                if c == "\n":
                    self.nl.append(at)
            self.data = b"".join(parts)
            return
        else:
            self.data = bytes(rng.choices(ALPHA[index % len(ALPHA)], k=size))
        if nl:
            d = bytearray(self.data)
            pos = 0
            while True:
                pos += max(1, int(rng.expovariate(1.0 / nl))) if rng.random() > 0.1 else 1
                if pos > len(d):
                    break
                d[pos - 1] = 10
                if crlf and pos > 1 and d[pos - 2] != 10:
                    d[pos - 2] = 13
            if endnl and d:
                d[-1] = 10
            for k in range(len(d) - 2):  # some lines are indented
                if d[k] == 10 and d[k + 1] not in b"\r\n" and d[k + 2] not in b"\r\n" and rng.random() < 0.2:
                    d[k + 1] = rng.choice(b" \t")
            self.data = bytes(d)
        self.nl = [k + 1 for k, b in enumerate(self.data) if b == 10]


class Decoder:
    "Turns bytes into segments; remembers where it is in each source."

    def __init__(self, sources, likely=()):
        self.sources = sources
        self.likely = likely  # sources that win where the bytes are the same
        self.at = {}
        self.last = None

    def __call__(self, data):
        out = []
        pos = 0
        while pos < len(data):
            best = None
            tags = list(self.sources)
            if self.last in self.at:
                tags.remove(self.last)
                tags.insert(0, self.last)
            if self.likely:
                tags.sort(key=lambda x: x not in self.likely)
            for tag in tags:
                a = self.at.get(tag, 0)
                n = _match(self.sources[tag].data, a, data, pos)
                if n and (best is None or n > best[2]):
                    best = (tag, a, n)
                    if n == len(data) - pos:
                        break
            if best is None or best[2] < min(4, len(data) - pos):
                probe = data[pos : pos + 24]
                for tag in tags:
                    a = self.sources[tag].data.find(probe)
                    if a >= 0:
                        n = _match(self.sources[tag].data, a, data, pos)
                        if best is None or n > best[2]:
                            best = (tag, a, n)
            if best is None:
                best = ("?", 0, 1)
            tag, a, n = best
            if tag != "?":
                self.at[tag] = a + n
                self.last = tag
            if out and out[-1]["s"] == tag and (out[-1]["b"] == a or tag == "?"):
                out[-1]["b"] += n
            else:
                out.append({"s": tag, "a": a, "b": a + n})
            pos += n
        return out


def _match(src, a, data, pos):
    "Length of the common prefix of src[a:] and data[pos:]."
    m = min(len(src) - a, len(data) - pos)
    if m <= 0 or src[a] != data[pos]:
        return 0
    if src[a : a + m] == data[pos : pos + m]:
        return m
    lo, hi = 1, m
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if src[a : a + mid] == data[pos : pos + mid]:
            lo = mid
        else:
            hi = mid - 1
    return lo


class IoDriver(sim.Driver):
    "Runs scripted children; every transfer is an event."

    time_limit = 400.0

    def __init__(self, run, scripts, chooser):
        super().__init__()
        self.run = run
        self.scripts = scripts
        self.choose = chooser
        self.hooks = []

    def on_spawn(self, child):
        child.ops = list(self.scripts.get(child.name, ()))
        child.pc = 0
        child.off = {}
        child.done = 0
        child.buf = b""
        child.bufseg = []
        child.wake = None
        child.dec = {}
        subs = [a for a in child.args[1:] if a.startswith("/dev/fd/")]
        child.fdmap = {"0": 0, "1": 1, "2": 2}
        for k, a in enumerate(subs):
            child.fdmap[f"s{k}"] = int(a[8:])

    def on_exit(self, child):
        child.exit_t = self.world.now

    def fd(self, c, name):
        return c.fdmap.get(name, -1)

    def enabled(self, c):
        if c.state == "run":
            op = c.ops[c.pc] if c.pc < len(c.ops) else ("x", 0)
            k = op[0]
            if k == "w":
                return c.writable(self.fd(c, op[1]))
            if k in ("r", "rall"):
                return c.readable(self.fd(c, op[1]))
            if k == "cat":
                return c.writable(self.fd(c, op[2])) if c.buf else c.readable(self.fd(c, op[1]))
            if k == "sleep":
                if c.wake is None:
                    c.wake = self.world.now + op[1]
                return self.world.now >= c.wake - 1e-9
            if k == "wait":
                return False
            return True
        return c.state == "exited" or (c.stolen and not c.notified)

    def segs(self, c, name, data):
        dec = c.dec.get(name)
        if dec is None:
            dec = c.dec[name] = Decoder(self.run.sources, self.run.seen[self.run.conn[c.name][name.strip(">")]])
        return dec(data)

    def step(self, c):
        w = self.world
        if c.state != "run":
            c.notify()
            return
        op = c.ops[c.pc] if c.pc < len(c.ops) else ("x", 0)
        k = op[0]
        if k == "w":  # ("w", fd, tag, n, chunk)
            _, name, tag, n, chunk = op
            src = self.run.sources[tag].data
            off = c.off.get(tag, 0)
            m = min(n - c.done, chunk)
            got = c.write(self.fd(c, name), src[off : off + m]) if m else 0
            if got < 0:
                w.rec("epipe", n=c.name, fd=name)
                self.die(c)
                return
            if got:
                self.run.wrote(c.name, name, [{"s": tag, "a": off, "b": off + got}])
            c.off[tag] = off + got
            c.done += got
            if c.done >= n:
                c.done = 0
                c.pc += 1
        elif k in ("r", "rall"):  # ("r", fd, n, chunk): n bytes or end of file
            name = op[1]
            n, chunk = (op[2], op[3]) if k == "r" else (1 << 30, op[2])
            data = c.read(self.fd(c, name), min(chunk, n - c.done)) if n > c.done else b""
            if data is None:
                return
            if data:
                c.done += len(data)
                w.rec("r", n=c.name, fd=name, d=self.segs(c, name, data))
                if c.done < n:
                    return
            elif n > c.done:
                w.rec("eof", n=c.name, fd=name)
            c.done = 0
            c.pc += 1
        elif k == "cat":  # ("cat", from, to, chunk)
            _, src, dst, chunk = op
            if c.buf:
                got = c.write(self.fd(c, dst), c.buf)
                if got < 0:
                    w.rec("epipe", n=c.name, fd=dst)
                    self.die(c)
                    return
                if got:
                    self.run.wrote(c.name, dst, self.segs(c, ">" + src, c.buf[:got]))
                c.buf = c.buf[got:]
            else:
                data = c.read(self.fd(c, src), chunk)
                if data is None:
                    return
                if data:
                    w.rec("r", n=c.name, fd=src, d=self.segs(c, src, data))
                    c.buf = data
                else:
                    w.rec("eof", n=c.name, fd=src)
                    c.pc += 1
        elif k == "close":
            c.close(self.fd(c, op[1]))
            w.rec("close", n=c.name, fd=op[1])
            c.pc += 1
        elif k == "sleep":
            c.wake = None
            c.pc += 1
        elif k == "x":
            c.exit(op[1])
        else:
            raise sim.WorldError(f"bad op {op!r}")

    def die(self, c):
        "SIGPIPE."
        c.exit(-13)

    def blocked(self):
        out = []
        for c in self.world.children:
            if c.state == "run":
                op = c.ops[c.pc] if c.pc < len(c.ops) else ("x", 0)
                if op[0] == "w":
                    out.append({"n": c.name, "fd": op[1], "op": "w"})
                elif op[0] in ("r", "rall"):
                    out.append({"n": c.name, "fd": op[1], "op": "r"})
                elif op[0] == "cat":
                    out.append({"n": c.name, "fd": op[2] if c.buf else op[1], "op": "w" if c.buf else "r"})
        return out

    def quiescent(self, timeout):
        w = self.world
        acts = [c for c in w.children if self.enabled(c)] + [h for h in self.hooks if h.enabled(w)]
        if acts:
            a = acts[self.choose(len(acts))]
            if isinstance(a, sim.Child):
                self.step(a)
            else:
                a.fire(w)
            return
        wakes = [c.wake for c in w.children if c.state == "run" and c.wake is not None and c.wake > w.now]
        wakes += [h.wake(w) for h in self.hooks if h.wake(w) is not None and h.wake(w) > w.now]
        times = w.timers()[:1] + wakes
        if not times or min(times) > w.t0 + self.time_limit:
            w.abort("stuck")
            return
        w.now = max(w.now, min(times))


class Feeder:
    "Supplies a StreamReader piece by piece; without end if 'gap' is set (a piece every gap seconds)."

    def __init__(self, reader, data, chunk, gap=0):
        self.reader, self.data, self.chunk, self.pos = reader, data, chunk, 0
        self.done = False
        self.gap = gap
        self.next = None

    def enabled(self, w):
        if self.gap:
            return self.next is None or w.now >= self.next
        return not self.done

    def wake(self, w):
        return self.next

    def fire(self, w):
        if self.gap:
            self.next = w.now + self.gap
        if self.gap and self.pos >= len(self.data):
            self.pos = 0
        if self.pos >= len(self.data):
            self.done = True
            self.reader.feed_eof()
        else:
            self.reader.feed_data(self.data[self.pos : self.pos + self.chunk])
            self.pos += self.chunk


class FarEnd:
    "Reads the far end of a caller's StreamWriter, slowly."

    def __init__(self, fd, chunk):
        self.fd, self.chunk = fd, chunk
        self.data = bytearray()
        self.eof = False

    def enabled(self, w):
        return not self.eof and sim._poll1(self.fd, False)

    def wake(self, w):
        return None

    def fire(self, w):
        d = os.read(self.fd, self.chunk)
        if d:
            self.data += d
        else:
            self.eof = True


class LogSink(logging.Logger):
    def __init__(self):
        super().__init__("vfio")
        self.lines = []
        self.disabled = True

    def error(self, msg, *args, **kw):
        self.lines.append(msg)

    def __deepcopy__(self, memo):
        return self


class IoRun:
    "One scenario."

    def __init__(self, scen, rng=None, prefix=(), inject=()):
        self.scen = scen
        self.inject = list(inject)
        self.sources = {t: Source(t, k, *a) for k, (t, a) in enumerate(scen["sources"].items())}
        self.conn = scen["cfg"]["conn"]
        self.seen = {c: {g["s"] for g in x["fed"]} for c, x in scen["cfg"]["ch"].items()}
        self.driver = IoDriver(self, scen["scripts"], Chooser(prefix, rng))
        self.world = sim.World(self.driver, max_iter=60000)
        self.driver.world = self.world
        self.blk = []
        abort = self.world.abort

        def stuck(why):
            if not self.world.hung:
                self.blk = self.driver.blocked()
            abort(why)

        self.world.abort = stuck
        self.world.task_seed = rng.randrange(1 << 20) if rng is not None else 0
        self.sinks = []  # (channel, kind, base tag segments, getter)
        self.closers = []
        self.ended = False
        self.noerr = False  # the error output of another command
        self.user_task = None

    # -- building the command ------------------------------------------------
    def enc(self):
        return self.scen.get("encoding", "utf-8")

    def text(self, data):
        return data.decode(*self.enc().split(maxsplit=1))

    def untext(self, s):
        try:
            return s.encode(*self.enc().split(maxsplit=1))
        except UnicodeError:
            return b"\x00" * max(1, len(s))

    def path(self, data=None):
        p = os.path.join(self.tmp, f"f{len(os.listdir(self.tmp))}")
        if data is not None:
            with open(p, "wb") as f:
                f.write(data)
        return p

    def rd(self, p):
        with open(p, "rb") as f:
            return f.read()

    async def input_obj(self, spec):
        "(object, close)"
        from pathlib import Path

        kind = spec[0]
        data = self.sources[spec[1]].data if len(spec) > 1 and spec[1] else b""
        if kind == "str":
            return self.text(data), False
        if kind == "bytes":
            return data, False
        if kind == "bytearray":
            return bytearray(data), False
        if kind == "path":
            return Path(self.path(data)), False
        if kind in ("fd", "fdc"):
            fd = sim._high(os.open(self.path(data), os.O_RDONLY))
            if kind == "fd":
                self.closers.append(fd)
            return fd, kind == "fdc"
        if kind == "bytesio":
            return io.BytesIO(data), False
        if kind == "stringio":
            return io.StringIO(self.text(data), newline=""), False
        if kind == "reader":
            r = asyncio.StreamReader(limit=1 << 16)
            self.driver.hooks.append(Feeder(r, data, *spec[2:]))
            return r, False
        from shellous import sh

        return {"null": sh.DEVNULL, "capture": sh.CAPTURE, "inherit": sh.INHERIT}[kind], False

    async def output_obj(self, spec, chan):
        "(object, append, close)"
        from pathlib import Path

        from shellous import sh

        kind = spec[0]
        app = bool(spec[1]) if len(spec) > 1 else False
        old = self.sources["old"].data if len(spec) > 2 and spec[2] else b""
        base = old if app or kind in ("fd", "fdc", "bufw", "inherit") else b""
        if kind in ("null", "capture"):
            return {"null": sh.DEVNULL, "capture": sh.CAPTURE}[kind], False, False
        if kind == "bytearray":
            o = bytearray(old)
            self.sink(chan, base, lambda: bytes(o))
            return o, app, False
        if kind == "bytesio":
            o = io.BytesIO(old)
            self.sink(chan, base, o.getvalue)
            return o, app, False
        if kind == "stringio":
            o = io.StringIO(newline="")
            o.write(old.decode())
            self.sink(chan, base, lambda: self.untext(o.getvalue()))
            return o, app, False
        if kind == "path":
            p = Path(self.path(old))
            self.sink(chan, base, lambda: self.rd(p))
            return p, app, False
        if kind in ("fd", "fdc", "inherit"):
            p = self.path(old)
            fd = sim._high(os.open(p, os.O_WRONLY | os.O_APPEND))
            self.sink(chan, base, lambda: self.rd(p))
            if kind == "inherit":
                f = os.fdopen(fd, "w")
                self.closers.append(f)
                if spec[3] == 1:
                    sys.stdout = f
                else:
                    sys.stderr = f
                return sh.INHERIT, False, False
            if kind == "fd":
                self.closers.append(fd)
            return fd, app, kind == "fdc"
        if kind in ("file", "filec"):
            p = self.path(old)
            f = open(p, "r+b", buffering=0)
            self.sink(chan, base, lambda: self.rd(p))
            if kind == "file":
                self.closers.append(f)
            return f, app, kind == "filec"
        if kind == "logger":
            o = LogSink()

            def logged():
                d = self.untext("\n".join(o.lines))
                end = bool(o.lines) and self.full and len(d) + len(self.untext("\n")) == self.written(chan)
                return d + self.untext("\n") * end  # a message does not show how its line ended

            self.sink(chan, b"", logged)
            return o, False, False
        if kind == "writer":
            r, w = os.pipe()
            r = sim._high(r)
            os.set_blocking(r, False)
            end = FarEnd(r, spec[3])
            self.driver.hooks.append(end)
            loop = asyncio.get_running_loop()
            rdr = asyncio.StreamReader()
            tr, proto = await loop.connect_write_pipe(lambda: asyncio.StreamReaderProtocol(rdr), os.fdopen(w, "wb", 0))
            o = asyncio.StreamWriter(tr, proto, None, loop)
            self.sink(chan, b"", lambda: bytes(end.data))
            self.closers.append(r)
            return o, False, False
        return {"null": sh.DEVNULL, "capture": sh.CAPTURE, "stdout": sh.STDOUT, "buffer": sh.BUFFER}[kind], False, False

    def wrote(self, name, fd, d):
        self.seen[self.conn[name][fd]].update(g["s"] for g in d)
        self.world.rec("w", n=name, fd=fd, d=d)

    def written(self, chan):
        "Bytes written to a channel so far."
        conn = self.scen["cfg"]["conn"]
        return sum(g["b"] - g["a"] for e in self.world.events if e["k"] == "w" and conn[e["n"]][e["fd"]] == chan
                   for g in e["d"])

    def sink(self, chan, base, get):
        self.sinks.append((chan, base, get))

    async def build(self, spec):
        from shellous import sh

        if "pipe" in spec:
            p = None
            for x in spec["pipe"]:
                c = await self.build(x)
                p = c if p is None else p | c
            return p.writable if spec.get("wr") else p
        args = ["/v/" + spec["n"]]
        for a in spec.get("args", ()):
            args.append(await self.build(a) if isinstance(a, dict) else a)
        cmd = sh(*args)
        conn = self.scen["cfg"]["conn"][spec["n"]]
        how = spec.get("how", 0)  # operators or methods
        if spec.get("in"):
            o, close = await self.input_obj(spec["in"])
            cmd = (o | cmd) if how and not close and not isinstance(o, int) else cmd.stdin(o, close=close)
        if spec.get("out"):
            o, app, close = await self.output_obj(spec["out"], conn["1"])
            if how and not close and not isinstance(o, int):
                cmd = (cmd >> o) if app else (cmd | o)
            else:
                cmd = cmd.stdout(o, append=app, close=close)
        if spec.get("err"):
            o, app, close = await self.output_obj(spec["err"], conn["2"])
            cmd = cmd.stderr(o, append=app, close=close)
        opt = dict(spec.get("opt", {}))
        if "passfds" in spec:
            fd = sim._high(os.open(os.devnull, os.O_RDONLY))
            opt.update(pass_fds=(fd,), pass_fds_close=spec["passfds"])
            if not spec["passfds"]:
                self.closers.append(fd)
        if "encoding" in self.scen:
            opt["encoding"] = self.scen["encoding"]
        if opt:
            cmd = cmd.set(**opt)
        return cmd.writable if spec.get("wr") else cmd

    # -- the caller ------------------------------------------------------------
    def decode(self, data, who):
        dec = self.decs.get(who)
        if dec is None:
            dec = self.decs[who] = Decoder(self.sources, self.seen[who])
        return dec(data)

    async def writer_task(self, w, stream, acts, chan):
        for a in acts:
            if a[0] == "write":
                d = self.sources[a[1]].data[a[2] : a[3]]
                self.seen[chan].add(a[1])
                w.rec("uw", c=chan, d=[{"s": a[1], "a": a[2], "b": a[3]}])
                stream.write(d)
                await stream.drain()
            elif a[0] == "sleep":
                await asyncio.sleep(a[1])
        stream.close()
        w.rec("uclose", c=chan)

    async def reader_task(self, w, stream, chunk, chan, until=None):
        n = 0
        while until is None or n < until:
            d = await stream.read(chunk)
            if not d:
                w.rec("ueof", c=chan)
                break
            n += len(d)
            w.rec("ur", c=chan, d=self.decode(d, chan))

    async def user(self):
        from shellous import Result, ResultError

        scen, w = self.scen, self.world
        form = scen["form"]
        res = None
        try:
            cmd = await self.build(scen["cmd"])
            if form == "await":
                res = await cmd
            elif form == "result":
                res = await cmd.result
            elif form == "iter":
                n = 0
                chan = scen["iterchan"]
                dec = Decoder(self.sources, self.seen[chan])
                it = aiter(cmd)
                async for line in it:
                    n += 1
                    w.rec("line", c=chan, d=dec(self.untext(line)))
                    if scen.get("brk") == n:
                        w.rec("stop")
                        break
                else:
                    w.rec("lines_end", c=chan)
                if scen.get("brk"):
                    await it.aclose()
            elif form == "with":
                b = scen["body"]
                async with cmd as run:
                    ts = []
                    if b.get("w") is not None:
                        ts.append(self.writer_task(w, run.stdin, b["w"], b["wc"]))
                    if b.get("r") is not None:
                        ts.append(self.reader_task(w, run.stdout, b["r"], b["rc"], b.get("runtil")))
                    if b.get("e") is not None:
                        ts.append(self.reader_task(w, run.stderr, b["e"], b["ec"]))
                    if b.get("lines"):
                        chan = b["lines"]
                        dec = Decoder(self.sources, self.seen[chan])

                        async def lines():
                            async for line in run:
                                w.rec("line", c=chan, d=dec(self.untext(line)))
                            w.rec("lines_end", c=chan)

                        ts.append(lines())
                    await asyncio.gather(*ts)
                    w.rec("leave")
                res = run.result()
            else:
                raise sim.WorldError(form)
            out = "ok"
        except BaseException as ex:
            if isinstance(ex, sim.WorldError):
                raise
            if isinstance(ex, ResultError):
                out, res = "ResultError", ex.result
            elif isinstance(ex, asyncio.CancelledError):
                out = "Cancelled"
            elif isinstance(ex, TimeoutError):
                out = "Timeout"
            else:
                out = type(ex).__name__
            self.exc = ex
        self.ended = True
        for _ in range(4):
            await asyncio.sleep(0)
        if isinstance(res, Result):
            if res.exit_code != 0 and not scen["cfg"]["solo"]:
                scen = dict(scen, errcut=True)
                self.noerr = True
            self.returned(res.output_bytes, res.error_bytes)
            self.returned(self.untext(res.output), self.untext(res.error) if not scen.get("errcut") else None)
        elif isinstance(res, str):
            self.returned(self.untext(res), None)
        ends = [h for h in self.driver.hooks if isinstance(h, FarEnd)]
        if out in ("ok", "ResultError") and ends:
            for _ in range(3000):
                if all(h.eof for h in ends):
                    break
                for h in ends:
                    if h.enabled(w):
                        h.fire(w)
                await asyncio.sleep(0.001)
        self.full = out in ("ok", "ResultError")
        for chan, base, get in self.sinks:
            d = get()
            w.rec("sink", c=chan, out=out, base=Decoder(self.sources)(base),
                  d=Decoder(self.sources, self.seen[chan] | {"old"} if base else self.seen[chan])(d))
        w.rec("end", out=out)

    def returned(self, out, err):
        for what, chan in self.scen.get("ret", {}).items():
            d = out if what == "out" else err
            if d is not None and not (what == "err" and self.noerr):
                self.sink(chan, b"", lambda d=d: d)

    async def main(self, w):
        t = self.user_task = asyncio.get_running_loop().create_task(self.user(), name="user")
        await asyncio.wait([t])
        if not t.cancelled() and t.exception() is not None:
            raise t.exception()

    def fire(self):
        t = self.user_task
        if t is not None and not t.done() and not self.ended and t.cancel():
            self.world.rec("stop")

    def run(self):
        w = self.world
        self.decs = {}
        self.tmp = tempfile.mkdtemp(prefix="vf")
        old = sys.stdin, sys.stdout, sys.stderr
        for k in self.inject:
            w.inject(k, self.fire)
        try:
            if self.scen.get("stdin"):
                sys.stdin = open(self.path(self.sources[self.scen["stdin"]].data), "rb")
                self.closers.append(sys.stdin)
            w.run(self.main)
        finally:
            sys.stdin, sys.stdout, sys.stderr = old
            for x in self.closers:
                try:
                    if isinstance(x, int):
                        sim._real["close"](x)
                    else:
                        x.close()
                except OSError:
                    pass
            shutil.rmtree(self.tmp, ignore_errors=True)
        return self.trace()

    def trace(self):
        evs = []
        names = [c.name for c in self.world.children]
        for e in self.world.events:
            e = dict(e)
            k = e["k"]
            e.pop("t")
            if k == "spawn":
                e = {"k": k, "n": e["name"]}
            elif k == "exit":
                e = {"k": k, "n": names[e["p"]], "code": e["code"]}
            elif k == "sig":
                e = {"k": "sig"}
            elif k in ("reap", "stolen", "spawnfail", "badkill"):
                continue
            elif k == "hang":
                e = {"k": k, "blk": self.blk}
                evs.append(e)
                break
            evs.append(e)
        return {"cfg": self.scen["cfg"], "ev": evs}
