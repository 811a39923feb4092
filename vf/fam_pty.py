"""Real commands in real pseudo-terminals, recorded as traces for spec/Pty.tla.

The child (ptychild.py) reports what it finds and does to a side file. All
byte strings in a trace are sequences of numbers; n 'Z's in a row are the one
number 1000+n."""
import asyncio
import errno
import io
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import termios
import threading
import time
import zlib
from pathlib import Path

from . import core

CHILD = os.path.join(os.path.dirname(os.path.abspath(__file__)), "ptychild.py")
LIMIT = 15.0  # real seconds: a run that takes longer hangs


class BodyError(Exception):
    pass


def squeeze(b):
    "Bytes as a sequence of numbers, runs of more than 50 Z's as one number."
    out, i = [], 0
    b = bytes(b)
    while i < len(b):
        if b[i] == 90:
            j = i
            while j < len(b) and b[j] == 90:
                j += 1
            if j - i > 50:
                out.append(1000 + j - i)
                i = j
                continue
        out.append(b[i])
        i += 1
    return out


def lines(b):
    "Every line of a long input as one number."
    return [100000 + zlib.crc32(x) % 100000 for x in b.splitlines(True)]


def fds():
    out = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            out[int(n)] = os.readlink(f"/proc/self/fd/{n}")
        except OSError:
            pass
    return out


class Loop(asyncio.SelectorEventLoop):
    "Counts turns; can open canaries and cancel a task at a chosen turn."
    on_turn = None

    def _run_once(self):
        if self.on_turn is not None:
            self.on_turn()
        super()._run_once()


# ---------------------------------------------------------------- scenarios

LOW = "abcdefghij"


def text(r, n, nl=0.3):
    out = ""
    for _ in range(n):
        x = r.random()
        out += "\n" if x < nl else "\r" if x < nl + 0.05 else r.choice(LOW)
    return out


def random_scenario(seed, focus=""):
    r = random.Random(seed)
    mode = r.choice(["true", "true", "cooked", "cooked", "noecho", "noecho", "raw", "cbreak"])
    rows, cols = (r.randrange(1, 300), r.randrange(1, 300)) if mode != "true" and r.random() < 0.7 else (0, 0)
    if rows and r.random() < 0.2:
        rows, cols = r.choice([(rows, 0), (0, cols)])
    canon = mode in ("true", "cooked", "noecho")
    form = r.choice(["await", "await", "result", "with", "with", "prompt", "iter", "pipe"])
    sc = dict(mode=mode, rows=rows, cols=cols, form=form, stdin="default", stdout="default", stderr="default",
              input="", fault="", timeout=0, cancel=-1, code=0, append=False, pos=0, body=[], plan=[], twice=r.random() < 0.15,
              merged=False, big=False)
    if r.random() < 0.25:
        sc["code"] = r.choice([1, 3, 77])
    if form in ("await", "result", "iter", "pipe"):
        sc["stdin"] = r.choice(["default", "str", "str", "bytes", "stringio", "bytesio", "reader", "file", "null", "bytearray"])
    if form in ("with",):
        sc["stdin"] = r.choice(["capture", "capture", "default", "str", "reader", "null", "file"])
    if form in ("await", "result"):
        sc["stdout"] = r.choice(["default"] * 5 + ["bytearray", "stringio", "bytesio", "file", "null", "capture", "writer"])
    if form == "with":
        sc["stdout"] = r.choice(["capture", "capture", "capture", "default", "file", "bytearray", "null"])
    if form in ("await", "result", "with", "pipe"):
        sc["stderr"] = r.choice(["default"] * 4 + ["stdout", "buffer", "file", "null", "bytearray", "stringio"])
    if form == "pipe":
        sc["pos"] = r.randrange(3)  # first, middle, last of three (the others copy)
        if sc["pos"]:
            sc["stdin"] = "pipe"
        if sc["pos"] < 2:
            sc["stdout"] = "pipe"
    if sc["stdout"] in ("file", "bytearray", "stringio", "bytesio") and r.random() < 0.3:
        sc["append"] = True
    if form in ("with", "result", "await") and r.random() < 0.05:
        sc["stdout"], sc["stderr"], sc["append"] = "null", "stdout", False
    # what the child does
    plan, body = sc["plan"], sc["body"]
    upper = lambda: "".join(r.choice("ABCDE\n") for _ in range(r.randrange(1, 8)))
    outs = lambda: plan.append(["tty", upper()] if r.random() < 0.12 else ["write", r.choice([1, 1, 2]), upper()])
    if r.random() < 0.4:
        outs()
    term_in = sc["stdin"] not in ("file", "null", "pipe")
    has_in = sc["stdin"] not in ("default", "null") and not (form in ("with", "prompt") and sc["stdin"] in ("capture", "default"))
    if has_in:
        sc["input"] = text(r, r.randrange(0, 14)) + r.choice(["", "\n", "\n"])
        if canon and term_in and r.random() < 0.08:
            sc["input"] = text(r, 3) + "\x04" + text(r, 3)
        if sc["stdin"] in ("str", "bytes", "reader") and canon and mode == "noecho" and r.random() < 0.15:
            sc["input"], sc["big"] = "".join(r.choice(LOW) * 199 + "\n" for _ in range(500)), True
    bulk = (mode in ("noecho", "raw", "cbreak") or not (has_in or form in ("with", "prompt"))) and r.random() < 0.25
    reads = "none"
    if form in ("with", "prompt") and sc["stdin"] in ("capture", "default"):
        live = sc["stdin"] == "capture" or form == "prompt"
        n = r.randrange(0, 4)
        secrets = r.random() < 0.3
        total = 0
        lines = 0
        for _ in range(n):
            t = text(r, r.randrange(1, 6), 0) + "\n"
            if live:
                if form == "prompt" and r.random() < 0.25 and canon and not secrets:
                    body.append(["echo", r.random() < 0.5])
                if form == "prompt" and canon and secrets and r.random() < 0.4:
                    body.append(["secret", t])
                    plan.append(["setecho", False])
                    plan.append(["write", 1, "P"])
                    plan.append(["read"])
                    continue
                body.append(["send", t])
                if r.random() < 0.3:
                    body.append(["wait", r.choice([1, 3, 10])])
                total += len(t)
                lines += 1
                if canon:
                    plan.append(["read"])
                    if r.random() < 0.5:
                        outs()
        if live and r.random() < 0.6 and canon:
            if r.random() < 0.5:
                body.append(["send", text(r, 3, 0)])
                reads = "eof2"
            else:
                reads = "eof"
            body.append(["eof" if form == "prompt" else "eofchars", 2])
            plan.append(["readeof"])
        elif live and not canon and total:
            plan.append(["readn", total])
        elif live and r.random() < 0.15 and mode in ("true", "cooked", "noecho") and not secrets:
            plan.append(["sleep", 4000])
            body += [["ready"], ["send", "\x03"]]
        if form == "with" and sc["stdout"] == "capture":
            body.append(["readall"])
        elif form == "prompt":
            body.append(["readall"])
    elif has_in:
        x = r.random()
        if not term_in or canon:
            if x < 0.75:
                plan.append(["readeof"])
            elif x < 0.9:
                plan.append(["read"])
        elif sc["input"]:
            plan.append(["readn", len(sc["input"])])
        if form == "with" and sc["stdout"] == "capture":
            body.append(["readall"])
    elif sc["stdin"] == "null":
        plan.append(["readeof"])
        if form == "with" and sc["stdout"] == "capture":
            body.append(["readall"])
    elif form == "with" and sc["stdout"] == "capture":
        body.append(["readall"])
    for _ in range(r.randrange(0, 3)):
        outs()
    if form == "with" and sc["stdout"] in ("file", "null") and not (sc["stdout"] == "null" and sc["stderr"] == "stdout"):
        body.append(["readall"])
    if bulk:
        fd = r.choice([1, 1, 1, 2]) if sc["stderr"] != "buffer" else 1
        plan += [["write", fd, "B"], ["bulk", fd, r.choice([100, 5000, 50000] + [70000, 300000] * (form != "iter"))], ["write", fd, "E"]]
        if form == "prompt" and body and body[-1][0] == "readall" and r.random() < 0.5:
            plan[-2][2] = 300000
            body[-1:-1] = [["wait", 30], ["echo", r.random() < 0.5]]  # while the child waits to write
    if r.random() < 0.06:
        plan.append(["fork", 300])
    if form == "pipe" and sc["pos"] and ["readeof"] not in plan:
        plan.append(["readeof"])  # the stage before would get a SIGPIPE
    plan.append(["exit", sc["code"]])
    # endings
    x = r.random()
    if focus == "end" or x < 0.12:
        y = r.random()
        if y < 0.3:
            plan.insert(r.randrange(len(plan)), ["sleep", 8000])
            sc["timeout"] = r.choice([5, 60, 150])
        elif y < 0.85:
            if r.random() < 0.5:
                plan.insert(r.randrange(len(plan)), ["sleep", r.choice([0, 8000])])
            sc["cancel"] = r.randrange(0, 45)
        elif form in ("with", "prompt"):
            if r.random() < 0.5:
                plan.insert(r.randrange(len(plan)), ["sleep", 8000])
                body[:] = [b for b in body if b[0] != "readall"]
            body.insert(r.randrange(len(body) + 1), ["raise"])
    if focus == "fault" or r.random() < 0.04:
        sc["fault"] = r.choice(["openpty", "func", "tcgetattr", "ttyname", "reader", "writer", "exec", "noexe", "ctty", "outfile", "args"])
        if sc["fault"] == "outfile":
            if form in ("await", "result", "with"):
                sc["stdout"] = "file"
            else:
                sc["fault"] = "noexe"
        if form == "pipe":
            sc["form"], sc["stdin"], sc["stdout"] = "await", "default", "default"
        if sc["stdout"] == "writer":
            sc["stdout"] = "bytearray"
    return sc


# --------------------------------------------------------------------- runs

class PtyRun:
    def __init__(self, sc, seed, tag, tmp):
        self.sc = sc
        self.rng = random.Random(seed + 1)
        self.tmp = os.path.join(tmp, tag)
        os.mkdir(self.tmp)
        self.ev = []
        self.term = None
        self.over = False
        self.wr = None

    def rec(self, k, **kw):
        self.ev.append(dict(kw, k=k))

    def path(self, name):
        return Path(os.path.join(self.tmp, name))

    def pty(self):
        import shellous

        sc = self.sc
        m, a = sc["mode"], dict(rows=sc["rows"], cols=sc["cols"])
        fn = {"true": True, "cooked": shellous.cooked(**a), "noecho": shellous.cooked(echo=False, **a),
              "raw": shellous.raw(**a), "cbreak": shellous.cbreak(**a)}[m]
        if sc["fault"] == "func":
            def bad(fd):
                raise OSError(errno.EDOM, "injected")
            return bad
        return fn

    def build(self):
        from shellous import sh

        sc = self.sc
        self.path("plan").write_text(json.dumps(sc["plan"]))
        exe = {"exec": "/nonexistent/prog", "noexe": "vf-nonexistent-prog"}.get(sc["fault"], "/usr/bin/python3")
        cmd = sh(exe, "-S", "-E", "-I", "-B", CHILD, str(self.path("plan")), str(self.path("report")))
        if sc["fault"] == "args":
            cmd = cmd("a\0b")
        opts = dict(pty=self.pty())
        if sc["timeout"]:
            opts["timeout"] = sc["timeout"] / 1000
        cmd = cmd.set(**opts)
        data = sc["input"].encode()
        kind = sc["stdin"]
        if kind == "reader":
            rd = asyncio.StreamReader()
            for i in range(0, len(data), 5 if len(data) < 100 else 9000):
                rd.feed_data(data[i:i + (5 if len(data) < 100 else 9000)])
            rd.feed_eof()
            cmd = cmd.stdin(rd)
        elif kind == "file":
            self.path("in").write_bytes(data)
            cmd = cmd.stdin(self.path("in"))
        elif kind not in ("default", "pipe"):
            cmd = cmd.stdin({"str": sc["input"], "bytes": data, "bytearray": bytearray(data), "stringio": io.StringIO(sc["input"]),
                             "bytesio": io.BytesIO(data), "null": sh.DEVNULL, "capture": sh.CAPTURE}[kind])
        for which in ("stdout", "stderr"):
            kind = sc[which]
            old = b"OLD"
            if kind in ("default", "pipe"):
                continue
            if kind == "file":
                sink = self.path(which)
                sink.write_bytes(old)
                if sc["fault"] == "outfile" and which == "stdout":
                    sink = self.path("nodir") / "x"
            elif kind == "writer":
                continue
            else:
                sink = {"bytearray": bytearray(old), "stringio": io.StringIO(), "bytesio": io.BytesIO(), "null": sh.DEVNULL,
                        "capture": sh.CAPTURE, "stdout": sh.STDOUT, "buffer": sh.BUFFER}[kind]
                if kind == "stringio":
                    sink.write("OLD")
                    sink.seek(0)
                if kind == "bytesio":
                    sink.write(b"OLD")
                    sink.seek(0)
            if which == "stdout":
                self.osink = sink
                cmd = cmd.stdout(sink, append=sc["append"])
            else:
                self.esink = sink
                cmd = cmd.stderr(sink)
        return cmd

    def content(self, kind, sink):
        if kind == "file":
            return sink.read_bytes()
        if kind == "bytearray":
            return bytes(sink)
        if kind == "stringio":
            return sink.getvalue().encode()
        if kind == "bytesio":
            return sink.getvalue()
        return b""

    async def prepare(self):
        if self.sc["stdout"] == "writer":
            loop = asyncio.get_running_loop()
            r, w = os.pipe()
            tr, pr = await loop.connect_write_pipe(
                lambda: asyncio.StreamReaderProtocol(asyncio.StreamReader()), os.fdopen(w, "wb", 0))
            rd = asyncio.StreamReader()
            rt, _ = await loop.connect_read_pipe(lambda: asyncio.StreamReaderProtocol(rd), os.fdopen(r, "rb", 0))
            self.wr = asyncio.StreamWriter(tr, pr, None, loop), rt, asyncio.ensure_future(rd.read())

    async def do_body(self, run, cli):
        sc = self.sc
        for op, *a in sc["body"]:
            if op == "send":
                self.rec("feed", d=list(a[0].encode()), quiet=False)
                if cli is not None:
                    await cli.send(a[0], end=None)
                else:
                    run.stdin.write(a[0].encode())
                    if self.rng.random() < 0.7:
                        await run.stdin.drain()
            elif op == "secret":
                self.rec("feed", d=list(a[0].encode()), quiet=True)
                await cli.send(a[0], end=None, no_echo=True, timeout=10)
            elif op == "echo":
                await asyncio.sleep(0.1)  # the terminal handles its input later
                cli.echo = a[0]
                self.rec("echo", on=cli.echo, want=a[0])
            elif op == "eofchars":
                self.rec("feed", d=[4] * a[0], quiet=False)
                run.stdin.write(run.pty_eof * a[0])
            elif op == "eof":
                self.rec("feed", d=[4, 4], quiet=False)
                cli.close()
            elif op == "ready":
                while not self.path("report").exists() or not self.path("report").read_bytes():
                    await asyncio.sleep(0.005)
            elif op == "wait":
                await asyncio.sleep(a[0] / 1000)
            elif op == "readall":
                if cli is not None:
                    self.term = (self.term or b"") + (await cli.read_all()).encode()
                else:
                    self.term = await run.stdout.read()
            elif op == "raise":
                self.rec("raise")
                raise BodyError

    async def go(self):
        from shellous import sh
        import shellous

        sc = self.sc
        code, term, out, err = -1, None, "ok", None
        form = sc["form"]
        self.osink = self.esink = None
        try:
            cmd = self.build()
            writer = None
            if sc["stdout"] == "writer":
                writer, rt, collect = self.wr
                cmd = cmd.stdout(writer)
            try:
                if form == "await":
                    term = (await cmd).encode()
                    code = 0
                elif form == "result":
                    res = await cmd.result
                    term, err, code = res.output_bytes, res.error_bytes, res.exit_code
                elif form == "iter":
                    term = b""
                    self.term = b""
                    async for line in cmd:
                        self.term += line.encode()
                    term = self.term
                elif form == "pipe":
                    data = sc["input"].encode()
                    cat = sh("cat")
                    cmds = [cat, cat]
                    cmds.insert(sc["pos"], cmd)
                    if sc["pos"]:
                        cmds[0] = cmds[0].stdin(data)
                    p = cmds[0] | cmds[1] | cmds[2]
                    term = (await p).encode()
                    code = 0
                else:
                    cm = cmd if form == "with" else cmd.prompt()
                    async with cm as x:
                        run, cli = (x, None) if form == "with" else (x._runner, x)
                        fd = run.pty_fd
                        self.rec("open", master=fd is not None and os.isatty(fd), eof=list(run.pty_eof))
                        await self.do_body(run, cli)
                    res = run.result(check=False)
                    code, err = res.exit_code, res.error_bytes
                    term = res.output_bytes
                    run.result()
            finally:
                if writer is not None:
                    writer.close()
                    self.term = await collect
                    rt.close()
        except asyncio.CancelledError:
            out = "Cancelled"
        except asyncio.TimeoutError:
            out = "Timeout"
        except BodyError:
            out = "Body"
        except shellous.ResultError as ex:
            out, code = "ResultError", ex.result.exit_code
            if form in ("await", "result", "pipe"):
                term = ex.result.output_bytes
                err = ex.result.error_bytes
        except (OSError, termios.error, RuntimeError) as ex:
            no = ex.args[0] if ex.args and isinstance(ex.args[0], int) else 0
            out = "injected" if no == errno.EDOM else type(ex).__name__
        except Exception as ex:  # noqa
            out = type(ex).__name__
        return self.finish(out, code, term, err)

    def finish(self, out, code, term, err):
        sc = self.sc
        self.over = True
        rep = []
        if self.path("report").exists():
            rep = [json.loads(x) for x in self.path("report").read_text().splitlines()]
        self.rep = rep
        for e in rep:
            if e["k"] == "got" and sc["big"]:
                e["d"] = lines(bytes(e["d"]))
        self.ev += rep
        # what arrived where
        gets = []
        if self.term is not None:
            gets.append(("term", self.term))
        elif sc["stdout"] in ("bytearray", "stringio", "bytesio"):
            if self.osink is not None:
                gets.append(("term", self.content(sc["stdout"], self.osink)))
        elif term is not None and sc["stdout"] not in ("capture", "writer", "file") and \
                not (sc["stdout"] == "null" and sc["stderr"] != "stdout"):
            gets.append(("term", term))
        res = dict(term=None, out=None, err=None)
        for k, v in gets:
            res[k] = v
        if sc["stdout"] == "file" and sc["fault"] != "outfile" and self.osink is not None:
            res["out"] = self.content("file", self.osink)
        if sc["stdout"] == "pipe":
            res["out"], res["term"] = term, None
        if self.esink is not None and sc["stderr"] in ("file", "bytearray", "stringio"):
            res["err"] = self.content(sc["stderr"], self.esink)
        if sc["stderr"] == "buffer":
            res["err"] = err
        for k in ("term", "out", "err"):
            v = res[k]
            self.rec("recv", what=k, have=v is not None, d=squeeze(v or b""))
        self.rec("ended", out=out, code=code if code is not None else -1)

    def cfg(self):
        sc = self.sc
        sin = {"file": "file", "null": "null", "pipe": "pipe"}.get(sc["stdin"], "term")
        sout = {"file": "file", "null": "null", "pipe": "pipe"}.get(sc["stdout"], "term")
        serr = {"default": "term", "stdout": "term", "file": "file", "null": "null"}.get(sc["stderr"], "pipe")
        # the library ends the terminal's input itself
        auto = sin == "term" and sc["stdin"] not in ("default", "capture") and sc["form"] != "prompt"
        pref = [79, 76, 68]
        # a file opened to append and text appended keep what was there; a StringIO or
        # BytesIO that is not appended to is overwritten from the start and cut
        return dict(mode=sc["mode"], rows=sc["rows"], cols=sc["cols"], std=[sin, sout, serr],
                    input=lines(sc["input"].encode()) if sc["big"] else list(sc["input"].encode()) if auto or sin in ("file", "pipe") else [],
                    auto=auto, big=sc["big"], form=sc["form"], code=sc["code"], fault=sc["fault"], timeout=sc["timeout"] > 0,
                    outold=pref if sc["append"] else [], limit=1024 if sc["stderr"] == "buffer" else 0,
                    forks=any(p[0] == "fork" for p in sc["plan"]),
                    piped=sc["form"] == "pipe", stops=sc["cancel"] >= 0 or sc["timeout"] > 0, last=sc["form"] != "pipe" or sc["pos"] == 2)


class Faults:
    "Makes one call of the set-up fail."

    def __init__(self, kind):
        self.kind = kind
        self.undo = []

    def patch(self, obj, name, new):
        old = getattr(obj, name)
        self.undo.append((obj, name, old))
        setattr(obj, name, new)

    def __enter__(self):
        import pty as ptymod
        from shellous import pty_util

        def fail(*_a, **_k):
            raise OSError(errno.EDOM, "injected")

        async def afail(*_a, **_k):
            raise OSError(errno.EDOM, "injected")

        k = self.kind
        if k == "openpty":
            self.patch(ptymod, "openpty", fail)
        elif k == "tcgetattr":
            self.patch(termios, "tcgetattr", fail)
        elif k == "ttyname":
            self.patch(os, "ttyname", fail)
        elif k == "ctty":
            self.patch(pty_util, "set_ctty", fail)
        elif k in ("reader", "writer"):
            self.patch(Loop, "connect_read_pipe" if k == "reader" else "connect_write_pipe", afail)
        return self

    def __exit__(self, *_):
        for o, n, v in self.undo:
            setattr(o, n, v)


def children():
    out = []
    for n in os.listdir("/proc"):
        if n.isdigit():
            try:
                with open(f"/proc/{n}/stat") as f:
                    st = f.read().rsplit(")", 1)[1].split()
                if int(st[1]) == os.getpid():
                    out.append(int(n))
            except (OSError, IndexError):
                pass
    return out


class Stuck(KeyboardInterrupt):
    "The event loop itself is blocked."


def _alarm(*_):
    raise Stuck


class Watchdog(threading.Thread):
    """Ends the children of a run whose event loop is blocked, and then the run.

    (A signal alone would not do: a call blocked in the kernel may not return.)"""
    the = None

    def __init__(self):
        super().__init__(daemon=True)
        self.due = None
        self.fired = 0

    @classmethod
    def set(cls, seconds):
        if cls.the is None:
            cls.the = Watchdog()
            cls.the.start()
            signal.signal(signal.SIGUSR2, _alarm)
        cls.the.fired = 0
        cls.the.due = None if seconds is None else time.monotonic() + seconds

    def run(self):
        while True:
            time.sleep(0.5)
            if self.due is not None and time.monotonic() > self.due:
                for pid in children():
                    os.kill(pid, signal.SIGKILL)
                if self.fired:
                    signal.pthread_kill(threading.main_thread().ident, signal.SIGUSR2)
                self.fired += 1
                self.due = time.monotonic() + 5


async def _main(runs, sc, box):
    loop = asyncio.get_running_loop()
    for r in runs:
        await r.prepare()
    await asyncio.sleep(0)
    before = fds()
    canaries = []
    null = os.stat("/dev/null").st_rdev
    turns = [0]
    closed = []
    orig_close = os.close

    def watched_close(fd):
        try:
            orig_close(fd)
        except OSError as ex:
            if ex.errno == errno.EBADF:
                closed.append(fd)
            raise

    task = None
    gone = []

    def cancel():
        if task is not None and not task.done() and not gone:
            gone.append(1)
            for r in runs:
                if not r.over:
                    r.rec("cancel")
            task.cancel()

    def on_turn():
        turns[0] += 1
        if turns[0] <= 60:
            canaries.append(os.open("/dev/null", os.O_RDONLY | os.O_CLOEXEC))
        if sc["cancel"] >= 0 and turns[0] == sc["cancel"] + 2:
            cancel()

    os.close = watched_close
    stuck = False
    try:
        loop.on_turn = on_turn

        async def all_():
            if len(runs) == 1:
                await runs[0].go()
            else:
                await asyncio.gather(*[r.go() for r in runs])

        task = asyncio.ensure_future(all_())
        late = loop.call_later(0.2, cancel) if sc["cancel"] >= 0 else None
        done, _ = await asyncio.wait([task], timeout=LIMIT)
        stuck = not done
        if late is not None:
            late.cancel()
        loop.on_turn = None
        if stuck:
            task.cancel()
            await asyncio.wait([task], timeout=LIMIT)
        elif not task.cancelled() and task.exception() is not None and not isinstance(task.exception(), asyncio.CancelledError):
            raise task.exception()
        for r in runs:
            if r.wr is not None and not r.over:  # cancelled before it began
                r.wr[0].close()
                await r.wr[2]
                r.wr[1].close()
        for _ in range(5):
            await asyncio.sleep(0)
        left = [t for t in asyncio.all_tasks() if t is not asyncio.current_task() and not t.done()]
    finally:
        os.close = orig_close
        loop.on_turn = None
    foul = 0
    for fd in canaries:
        try:
            if os.fstat(fd).st_rdev != null:
                foul += 1
            else:
                os.close(fd)
        except OSError:
            foul += 1
    after = fds()
    extra = sorted(v for k, v in after.items() if before.get(k) != v)
    alive = len(children())
    box.update(stuck=stuck, end=dict(k="end", fds=len(extra), alive=alive, tasks=len(left), foul=foul + len(closed),
                                     what=" ".join(extra)[:200]))


def run_scenario(sc, seed):
    "Returns the traces of the scenario's runs (one, or two at once)."
    tmp = tempfile.mkdtemp(prefix="vfpty")
    box = {}
    try:
        runs = [PtyRun(sc, seed, "a", tmp)]
        if sc["twice"] and not sc["fault"]:
            runs.append(PtyRun(sc, seed + 7, "b", tmp))
        loop = Loop()
        asyncio.set_event_loop(loop)
        try:
            Watchdog.set(2 * LIMIT + 5)
            with Faults(sc["fault"]):
                loop.run_until_complete(_main(runs, sc, box))
            loop.run_until_complete(loop.shutdown_asyncgens())
        except Stuck:
            box.update(stuck=True, end=dict(k="end", fds=0, alive=0, tasks=0, foul=0, what="blocked"))
        finally:
            fired = Watchdog.the.fired
            Watchdog.set(None)
            if box.get("stuck", True):
                for pid in children():
                    os.kill(pid, signal.SIGKILL)
                    try:
                        os.waitpid(pid, 0)
                    except ChildProcessError:
                        pass
            asyncio.set_event_loop(None)
            try:
                loop.close()
            except RuntimeError:
                pass
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    out = []
    for r in runs:
        ev = list(r.ev)
        if box["stuck"] or fired:
            ev.append(dict(k="hang"))
        ev.append(box["end"])
        out.append(dict(cfg=r.cfg(), ev=ev))
    return out
