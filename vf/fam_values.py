"""Histories of operations on commands, pipelines and contexts, and runs of
them, recorded as traces for spec/Values.tla."""
import asyncio
import contextvars
import fcntl
import io
import os
import random
import shutil
import signal
import stat
import sys
import tempfile
from pathlib import Path, PurePosixPath

from . import sim
from .fam_io import LogSink

OPTS = ("path inherit_env input input_close output output_append output_close error error_append error_close "
        "error_limit encoding _return_result _catch_cancelled_error exit_codes timeout cancel_timeout cancel_signal "
        "alt_name pass_fds pass_fds_close _writable _start_new_session _preexec_fn pty close_fds audit_callback "
        "coerce_arg").split()
EXITS = {"a": 0, "b": 0, "c": 3}
RUN = contextvars.ContextVar("vfrun", default=-1)


class ValDriver(sim.Driver):
    "Children read all there is, then write a label to each output, then exit."

    def __init__(self, run):
        super().__init__()
        self.run = run
        self.rng = run.rng

    def on_spawn(self, child):
        child.step = 0
        child.rd = bytearray()
        child.eofs = ""
        child.run = RUN.get()
        env = child.env if child.env is not None else dict(os.environ)
        child.env_at = dict(env)
        child.o, child.e = f"O{child.index}", f"E{child.index}"
        st = os.fstat(child.fds[0])
        child.ids = {k: (os.fstat(f).st_dev, os.fstat(f).st_ino) for k, f in child.fds.items()}
        if stat.S_ISCHR(st.st_mode) and st.st_rdev == os.stat("/dev/null").st_rdev:
            child.ik = "null"
        elif child.ids[0] == self.run.stdin_id:
            child.ik = "inherit"
        elif child.ids[0] in self.run.in_ids:
            child.ik = self.run.in_ids[child.ids[0]]
        else:
            child.ik = "pipe"
        if child.ik != "pipe":
            child.step = 1

    def act(self, c):
        "Next action of a child, None if blocked."
        if c.state == "run":
            if c.step == 0:
                return "r" if c.readable(0) else None
            if c.step in (1, 2):
                return "w" if c.writable(c.step) else None
            return "x"
        if c.state == "exited" and not c.notified:
            return "n"
        return None

    def do(self, c, a):
        if a == "r":
            d = c.read(0)
            if d is None:
                return
            c.rd += d
            if not d:
                c.eofs = "eof"
                c.step = 1
        elif a == "w":
            c.write(c.step, (c.o if c.step == 1 else c.e).encode() + b"\n")
            c.step += 1
        elif a == "x":
            c.exit(EXITS.get(os.path.basename(c.name), 0))
        else:
            c.notify()

    def quiescent(self, timeout):
        w = self.world
        acts = [(c, a) for c in w.children if (a := self.act(c))]
        acts += [(h, None) for h in self.run.ends if h.enabled(w)]
        if acts:
            c, a = self.rng.choice(acts)
            if a is None:
                c.fire(w)
            else:
                self.do(c, a)
            return
        for c in w.children:
            if c.state == "run" and c.step == 0:  # nobody will feed it
                c.eofs = "open"
                c.step = 1
                return
        t = w.timers()
        if not t or t[0] > w.now + 100:
            w.abort("stuck")
            return
        w.now = max(w.now, t[0])


class End:
    def __init__(self, fd):
        self.fd, self.data, self.eof = fd, bytearray(), False

    def enabled(self, w):
        return not self.eof and sim._poll1(self.fd, False)

    def fire(self, w):
        d = os.read(self.fd, 65536)
        self.data += d
        self.eof = not d


class Weird:
    "An argument that is none of the known types."

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text

    def __iter__(self):
        return iter("xy")


def c_dict(arg):
    if isinstance(arg, dict):
        return [f"{k}={v}" for k, v in arg.items()]
    return arg


def c_upper(arg):
    return arg.upper() if isinstance(arg, str) and "/" not in arg else arg


def c_wrap(arg):
    return ["-v", (arg, [1])] if isinstance(arg, (int, str)) else arg


COERCE = {"fn:dict": c_dict, "fn:upper": c_upper, "fn:wrap": c_wrap}


def canon(b):
    return ascii(b.decode("latin1"))[1:-1]


def text_of(arg):
    "The argument as the child sees it."
    if isinstance(arg, (bytes, bytearray, memoryview)):
        return canon(bytes(arg))
    if isinstance(arg, os.PathLike):
        return canon(os.fsencode(arg))
    return canon(os.fsencode(str(arg)))


class ValRun:
    def __init__(self, seed, focus=""):
        self.seed, self.focus = seed, focus
        self.rng = random.Random(seed)
        self.driver = ValDriver(self)
        self.world = sim.World(self.driver, max_iter=60000)
        self.driver.world = self.world
        self.ends = []
        self.evs = []
        self.objs = []
        self.closers = []
        self.toks = []  # (token, type, object)
        self.by_id = {}
        self.types = {"DEFAULT": "redirect"}
        self.texts = {"-": []}
        self.codes = {"-": [0], "codes:range(-255, 256)": [0, 3]}
        self.getters = {}
        self.olds = {"-": []}
        self.in_ids = {}
        self.single = set()  # tokens that can be used once
        self.spent = set()
        self.keep = []
        self.caller = []  # containers handed over
        self.aud = []
        self.where = {}
        self.inputs = []
        self.bufs = [io.StringIO("sio" + "é"), io.BytesIO(b"bio\xfe"), io.StringIO(""), io.StringIO()]
        self.bufs[-1].write("written")
        self.stuck = False

    # -- values -------------------------------------------------------------
    def tok(self, v):
        "Token of an observed or given option value."
        from shellous.redirect import Redirect

        if v is None or v is True or v is False:
            return str(v)
        if isinstance(v, Redirect):
            return v.name
        if isinstance(v, signal.Signals):
            return v.name
        t = self.by_id.get(id(v))
        if t is not None:
            return t
        if isinstance(v, range):
            return f"codes:{v!r}"
        if isinstance(v, frozenset):
            return "codes:" + repr(sorted(v))
        if isinstance(v, (str, bytes, int, float, tuple, PurePosixPath)):
            n = {"PosixPath": "path"}.get(type(v).__name__, type(v).__name__)
            return f"{n}:{ascii(str(v) if n == 'path' else v)}"
        return f"?{type(v).__name__}"

    def named(self, tok, ty, v):
        self.by_id[id(v)] = tok
        self.keep.append(v)
        self.types[tok] = ty
        return v

    def n(self):
        self.cnt = getattr(self, "cnt", 0) + 1
        return self.cnt

    def path(self, data=None):
        p = os.path.join(self.tmp, f"f{self.n()}")
        if data is not None:
            with open(p, "wb") as f:
                f.write(data)
        return p

    def own(self, fd):
        "The same file under a number no other file of this history has."
        self.fd = fcntl.fcntl(fd, fcntl.F_DUPFD_CLOEXEC, getattr(self, "fd", 799) + 1)
        os.close(fd)
        return self.fd

    def fid(self, p):
        st = os.stat(p)
        return (st.st_dev, st.st_ino)

    def input_value(self):
        "(value, type)"
        from shellous import sh
        from shellous.redirect import Redirect

        r, n = self.rng, self.n()
        k = r.choice("str bytes bytearray path int bytesio stringio reader DEVNULL CAPTURE INHERIT DEFAULT STDOUT BUFFER None float tuple logger str bytes path".split())
        if k == "None":
            return None, "None"
        if k in ("DEVNULL", "CAPTURE", "INHERIT", "DEFAULT", "STDOUT", "BUFFER"):
            return Redirect[k], "redirect"
        x = r.random()
        if x < 0.15 and self.inputs:  # one that was used before
            return r.choice(self.inputs)
        if x < 0.25:  # what another command's output went to
            outs = [(o, self.types[t]) for o in self.keep if (t := self.by_id[id(o)]) in self.getters
                    and self.types[t] in ("bytearray", "bytesio", "stringio")]
            if outs:
                return r.choice(outs)
        lab = f"in{n}"
        if r.random() < 0.1:
            lab = ""
        labs = [lab] if lab else []
        b = lab.encode() + b"\n" * bool(lab and r.random() < 0.5)
        if k == "str":
            v = b.decode()
        elif k == "bytes":
            v = b
        elif k == "bytearray":
            v = self.named(f"ba{n}", k, bytearray(b))
        elif k == "bytesio":
            v = self.named(f"bio{n}", k, io.BytesIO(b))
        elif k == "stringio":
            v = self.named(f"sio{n}", k, io.StringIO(b.decode()))
        elif k == "reader":
            v = self.named(f"rdr{n}", k, asyncio.StreamReader())
            v.feed_data(b)
            v.feed_eof()
            self.single.add(f"rdr{n}")
        elif k == "path":
            p = self.path(b)
            v = Path(p)
            self.in_ids[self.fid(p)] = self.tok(v)
        elif k == "int":
            p = self.path(b)
            v = self.own(os.open(p, os.O_RDONLY))
            self.closers.append((v, sim.fd_ident(v)))
            self.in_ids[self.fid(p)] = self.tok(v)
        elif k == "float":
            v = n + 0.5
        elif k == "tuple":
            v = ("x", n)
        elif k == "logger":
            v = self.named(f"log{n}", k, LogSink())
        t = self.tok(v)
        self.types[t] = k
        self.texts[t] = labs
        if k != "reader":
            self.inputs.append((v, k))
        if k in ("bytesio", "stringio"):
            v.seek(r.choice([0, 0, len(b)]))
        return v, k

    def output_value(self, err=False):
        from shellous.redirect import Redirect

        r, n = self.rng, self.n()
        k = r.choice(("str bytes float tuple None path path bytearray bytesio stringio int file logger writer DEVNULL "
                      "CAPTURE INHERIT BUFFER DEFAULT path bytearray STDOUT DEVNULL CAPTURE" + " STDOUT" * 3 * err).split())
        if k == "None":
            return None, k
        if k in ("DEVNULL", "CAPTURE", "INHERIT", "DEFAULT", "STDOUT", "BUFFER"):
            return Redirect[k], "redirect"
        old = f"old{n}\n".encode() if r.random() < 0.4 else b""
        if k == "str":
            v = f"out{n}"
        elif k == "bytes":
            v = f"out{n}".encode()
        elif k == "float":
            v = n + 0.25
        elif k == "tuple":
            v = ("y", n)
        elif k == "path":
            p = self.path(old)
            v = Path(p)
            get = lambda: self.rd(p)
        elif k == "bytearray":
            v = self.named(f"ba{n}", k, bytearray(old))
            get = lambda: bytes(v)
        elif k == "bytesio":
            v = self.named(f"bio{n}", k, io.BytesIO(old))
            get = v.getvalue
        elif k == "stringio":
            v = self.named(f"sio{n}", k, io.StringIO(old.decode()))
            get = lambda: v.getvalue().encode()
        elif k == "int":
            p = self.path(old)
            v = self.own(os.open(p, os.O_WRONLY | os.O_APPEND))
            self.closers.append((v, sim.fd_ident(v)))
            get = lambda: self.rd(p)
        elif k == "file":
            p = self.path(old)
            v = self.named(f"file{n}", k, open(p, "r+b", buffering=0))
            self.closers.append((v, None))
            get = lambda: self.rd(p)
        elif k == "logger":
            v = self.named(f"log{n}", k, LogSink())
            get = lambda: "\n".join(v.lines).encode()
        elif k == "writer":
            if not self.pool:
                return self.output_value(err)
            v, end = self.pool.pop()
            self.named(f"wr{n}", k, v)
            get = lambda: bytes(end.data)
            self.single.add(f"wr{n}")
        t = self.tok(v)
        self.types[t] = k
        if k not in ("str", "bytes", "float", "tuple"):
            self.getters[t] = get
            if t not in self.olds:
                self.olds[t] = self.labels(get())
        return v, k

    def rd(self, p):
        with open(p, "rb") as f:
            return f.read()

    def labels(self, b):
        return [canon(x) for x in b.replace(b"\r", b"").split(b"\n") if x]

    def term(self, a):
        "Abstract form of an argument."
        from shellous import Command, Pipeline

        d = {"xs": []}
        if isinstance(a, (Command, Pipeline)):
            d.update(ty="obj", v=self.objtok(a))
        elif isinstance(a, (io.StringIO, io.BytesIO)):
            d.update(ty=type(a).__name__.lower(), v=text_of(a.getvalue()))
        elif isinstance(a, _Many):
            d.update(ty=a.ty, v="", xs=[self.term(x) for x in a.items])
        elif isinstance(a, (list, tuple)):
            d.update(ty=type(a).__name__, v="", xs=[self.term(x) for x in a])
        elif a is None or a is Ellipsis:
            d.update(ty="None" if a is None else "Ellipsis", v="")
        elif isinstance(a, _Bad):
            d.update(ty=a.ty, v="")
        elif isinstance(a, (dict, set, frozenset, range)):
            d.update(ty=type(a).__name__, v="")
        elif isinstance(a, (str, bytes, bytearray, memoryview)):
            d.update(ty=type(a).__name__, v=text_of(a))
        elif isinstance(a, os.PathLike):
            d.update(ty="path", v=text_of(a))
        else:
            d.update(ty="other", v=text_of(a))
        return d

    def objtok(self, a):
        for k, o in enumerate(self.objs):
            if o is a:
                return f"obj{k + 1}"
        for k, o in enumerate(self.objs):
            if type(o) is type(a) and o == a:
                return f"obj{k + 1}"
        return "obj?"

    def argument(self, depth=0):
        r = self.rng
        k = r.randrange(26 if depth < 3 else 12)
        s = r.choice(["x", "", " ", "a b", "-o", "--x=1 2", "*", "$HOME", "a;b|c", "`id`", "'", '"', "\\", "\n", "\t", "é",
                      "日本", "~", "#", "a" * 40, "\udc80", "%s", "{}", "--", "a\n\nb", "&", "\x01\x7f"])
        if k < 5:
            return s
        if k == 5:
            return s.encode("utf-8", "surrogateescape") + r.choice([b"", b"\xff\xfe"])
        if k == 6:
            return Path("d/" + "e" * r.randrange(1, 4))
        if k == 7:
            return r.choice([0, -3, 1.5, 10 ** 20, True, 1j])
        if k == 8:
            return Weird(s)
        if k == 9:
            return bytearray(b"ba" + s.encode("utf-8", "surrogateescape"))
        if k == 10:
            return memoryview(b"mv\x80")
        if k == 11:
            b = r.choice(self.bufs)  # the same buffers again and again, at any position
            if r.random() < 0.5:
                b.seek(r.randrange(len(b.getvalue()) + 1))
            return b
        if k < 18:
            xs = [self.argument(depth + 1) for _ in range(r.randrange(0, 4))]
            return xs if r.random() < 0.6 else tuple(xs)
        if k < 20:
            xs = [self.argument(depth + 1) for _ in range(r.randrange(0, 3))]
            w = r.randrange(3)
            if w == 0:
                return _Many("reversed", list(reversed(xs)))
            if w == 1:
                return _Many("enumerate", [(i, x) for i, x in enumerate(xs)])
            return _Many("zip", [(x, f"z{i}") for i, x in enumerate(xs)])
        if k == 20:
            return r.choice([{"k": 1}, {1, 2}, frozenset({1}), range(3), None, ..., _Bad("generator"), _Bad("keys")])
        if k == 21 and self.objs[1:] and depth < 2:
            os_ = [o for o in self.objs if not _is_ctx(o)]
            if os_:
                return r.choice(os_)
        if k == 22:
            return {"k": s, "l": 2}
        return s

    # -- observing ------------------------------------------------------------
    def obs1(self, o):
        from shellous import Command, Pipeline

        if isinstance(o, Pipeline):
            return {"kind": "pipe", "cmds": [self.obs1(c) for c in o.commands]}
        opts = o.options
        d = {}
        for f in OPTS:
            v = getattr(opts, f, self)
            d[f] = "?" if v is self else self.tok(v)
        if isinstance(opts.pass_fds, (tuple, list)):
            d["pass_fds"] = "fds:" + repr(list(opts.pass_fds))
        env = opts.env or {}
        args = []
        if isinstance(o, Command):
            for a in o.args:
                if isinstance(a, (Command, Pipeline)):
                    args.append(self.objtok(a))
                elif isinstance(a, (str, bytes, os.PathLike)):
                    args.append(text_of(a))
                else:
                    args.append(f"?{type(a).__name__}")
        return {"kind": "cmd" if isinstance(o, Command) else "ctx", "args": args,
                "env": [[canon(os.fsencode(k)), canon(os.fsencode(v))] for k, v in env.items()], "o": d}

    def observe(self, extra=()):
        return [self.obs1(o) for o in [*self.objs, *extra]]

    def sysenv(self):
        return [[canon(os.fsencode(k)), canon(os.fsencode(v))] for k, v in os.environ.items()]

    def equal(self, new):
        objs = self.objs + [new]
        eq, hb = [], 0
        self.sig = ["|".join(",".join(type(a).__name__ for a in getattr(c, "args", ())) for c in self.leaves(o)) for o in objs]
        for i in range(len(objs)):
            for j in range(i + 1, len(objs)):
                if objs[i] == objs[j]:
                    eq.append([i + 1, j + 1])
                    try:
                        a, b = hash(objs[i]), hash(objs[j])
                    except TypeError:
                        continue
                    hb += a != b
        return eq, hb

    def op(self, on, op, a, fn):
        try:
            new = fn()
            out = "ok"
            if new is NotImplemented:
                raise TypeError
        except Exception as ex:  # pylint: disable=broad-except
            new, out = None, type(ex).__name__
        if out == "ok" and not isinstance(new, self.kinds):
            out = "odd:" + type(new).__name__
        e = {"k": "op", "on": on + 1, "op": op, "a": a, "out": out, "eq": [], "sig": [], "hb": 0, "sys": self.sysenv()}
        if out == "ok":
            e["eq"], e["hb"] = self.equal(new)
            e["sig"] = self.sig
            e["obs"] = self.observe([new])
            self.objs.append(new)
        else:
            e["obs"] = self.observe()
        self.evs.append(e)
        return out == "ok"

    # -- random operations -------------------------------------------------------
    def random_op(self):
        from shellous import Pipeline, Command, CmdContext

        r = self.rng
        i = r.randrange(len(self.objs))
        if r.random() < 0.5:
            i = len(self.objs) - 1
        x = self.objs[i]
        pipe, ctx = isinstance(x, Pipeline), isinstance(x, CmdContext)
        ops = ["stdin", "stdout", "stderr", "result", "call", "ror", "or", "rshift", "orobj"]
        if pipe:
            ops += ["item", "writable", "orobj", "stdin", "stdout"]
        else:
            ops += ["set"] * (6 if self.focus == "set" else 3) + ["env"] * (5 if self.focus == "env" else 2)
            if not ctx:
                ops += ["writable"]
        if ctx:
            ops = [o for o in ops if o not in ("ror", "or", "rshift", "orobj")] + ["call"] * 6 + ["or"] * (r.random() < 0.1)
        if self.focus == "args" and not pipe:
            ops += ["call"] * 8
        if self.focus == "redir":
            ops += ["stdin", "stdout", "stderr", "or", "ror", "rshift"] * 2
        op = r.choice(ops)
        if op == "stdin":
            v, ty = self.input_value()
            close = ty == "int" and r.random() < 0.4
            if close:
                self.single.add(self.tok(v))
            kw = {"close": close} if close or r.random() < 0.3 else {}
            self.op(i, op, {"v": self.tok(v), "close": str(close)}, lambda: x.stdin(v, **kw))
        elif op in ("stdout", "stderr"):
            v, ty = self.output_value(op == "stderr")
            close = ty in ("int", "file") and r.random() < 0.4
            app = r.random() < 0.4
            if close:
                self.single.add(self.tok(v))
            kw = {}
            if close or r.random() < 0.3:
                kw["close"] = close
            if app or r.random() < 0.3:
                kw["append"] = app
            self.op(i, op, {"v": self.tok(v), "close": str(close), "append": str(app)}, lambda: getattr(x, op)(v, **kw))
        elif op in ("result", "writable"):
            self.op(i, op, {}, lambda: getattr(x, op))
        elif op == "item":
            k = r.randrange(len(x.commands))
            self.op(i, op, {"k": k + 1}, lambda: x[k])
        elif op == "orobj":
            js = [j for j, o in enumerate(self.objs) if not _is_ctx(o)] or [0]
            j = r.choice(js) if r.random() < 0.95 else 0
            y = self.objs[j]
            nx = len(x.commands) if pipe else 1
            ny = len(y.commands) if isinstance(y, Pipeline) else 1
            if nx + ny <= 4:
                self.op(i, op, {"rhs": j + 1}, lambda: x | y)
        elif op == "ror":
            v, ty = self.input_value()
            self.op(i, op, {"v": self.tok(v), "ty": ty}, lambda: v | x)
        elif op in ("or", "rshift"):
            v, ty = self.output_value()
            self.op(i, op, {"v": self.tok(v), "ty": ty}, (lambda: x | v) if op == "or" else (lambda: x >> v))
        elif op == "env":
            kw = {r.choice(["A", "B", "C", "VX", "PATH"]): self.envval() for _ in range(r.choice([1, 1, 2, 3]))}
            self.op(i, op, {"env": self.envpairs(kw)}, lambda: x.env(**kw))
        elif op == "set":
            self.op_set(i, x)
        elif op == "call":
            self.op_call(i, x, pipe, ctx)

    def envval(self):
        r = self.rng
        return r.choice([f"v{self.n()}", 1, 2.5, Path("p/q"), "", "a b=c", True, "é", None])

    def envpairs(self, d):
        return [[canon(os.fsencode(str(k))), canon(os.fsencode(str(v)))] for k, v in d.items()]

    def op_set(self, i, x):
        r = self.rng
        pick = {
            "path": lambda: r.choice([None, self.d1, self.d2, self.d1 + ":" + self.d2]),
            "inherit_env": lambda: r.random() < 0.5,
            "encoding": lambda: r.choice(["utf-8", "latin-1", "utf-8 replace", "", "ascii ignore"]),
            "_return_result": lambda: r.random() < 0.5,
            "exit_codes": lambda: r.choice([None, frozenset({0}), frozenset({3}), frozenset({0, 3}), range(0, 4)]),
            "timeout": lambda: r.choice([None, 50.0, 60.5]),
            "cancel_timeout": lambda: r.choice([0.5, 2.5, 3.0]),
            "cancel_signal": lambda: r.choice([None, signal.SIGTERM, signal.SIGINT, signal.SIGHUP]),
            "alt_name": lambda: r.choice([None, "other", "b"]),
            "pass_fds": lambda: r.sample(self.passable, r.randrange(0, 3)),
            "pass_fds_close": lambda: False,
            "_start_new_session": lambda: r.random() < 0.5,
            "close_fds": lambda: r.random() < 0.5,
            "audit_callback": lambda: r.choice([None, self.audit1, self.audit2]),
            "coerce_arg": lambda: r.choice([None, *COERCE.values()]),
            "error_limit": lambda: r.choice([None, 1024, 5000]),
            "_writable": lambda: r.random() < 0.5,
            "env": lambda: {r.choice(["A", "B", "C", "VX"]): self.envval() for _ in range(r.choice([0, 1, 1, 2]))},
            "_catch_cancelled_error": lambda: False,
        }
        names = r.sample(sorted(pick), r.choice([1, 1, 2, 3]))
        if self.focus == "env" and r.random() < 0.6:
            names = sorted({*names, r.choice(["env", "inherit_env"])})
        if self.focus == "args" and r.random() < 0.6:
            names = sorted({*names, "coerce_arg"})
        kw = {n: pick[n]() for n in names}
        bad = ""
        if r.random() < 0.03:
            kw["bogus"] = 1
            bad = "TypeError"
        a = {"kw": {}, "hasenv": "env" in kw, "env": self.envpairs(kw["env"]) if "env" in kw else [], "bad": bad}
        for n, v in kw.items():
            if n == "env":
                self.caller.append(v)
            elif n == "pass_fds":
                a["kw"][n] = "fds:" + repr(list(v))
                kw[n] = fds = list(v)
                if r.random() < 0.3:
                    kw[n] = iter(fds)
                elif r.random() < 0.3:
                    kw[n] = tuple(fds)
                else:
                    self.caller.append(fds)
            elif n == "exit_codes" and v is not None:
                t = self.tok(v)
                a["kw"][n] = t
                self.codes[t] = [c for c in (0, 3) if c in v]
            elif n == "bogus":
                pass
            else:
                a["kw"][n] = self.tok(v)
        if not a["kw"]:
            a["kw"] = {"-": "-"}
        self.op(i, "set", a, lambda: x.set(**kw))

    def op_call(self, i, x, pipe, ctx):
        r = self.rng
        args = [self.argument() for _ in range(r.randrange(0, 4))]
        if pipe and r.random() < 0.5:
            args = []
        if self.focus not in ("args", ""):
            args = args[:1]
        if ctx and r.random() < 0.97:
            args.insert(0, self.prog())
        lists = [a for a in args if isinstance(a, list)]
        co = {}
        for t, fn in COERCE.items():
            co[t] = [self.term(fn(a) if not isinstance(a, (_Many, _Bad)) else a) for a in args]
        a = {"terms": [self.term(x_) for x_ in args], "coerced": co}
        self.caller += lists
        vals = [_real(v) for v in args]
        self.op(i, "call", a, lambda: x(*vals))

    def prog(self):
        r = self.rng
        n = r.choice("aabbc")
        k = r.random()
        if k < 0.5:
            return os.path.join(r.choice([self.d1, self.d2]), n)
        return n

    def mutate(self):
        "The caller changes a container it passed earlier."
        r = self.rng
        if not self.caller:
            return
        c = r.choice(self.caller)
        if isinstance(c, dict):
            c["MUT"] = "1"
            if r.random() < 0.5:
                c.pop(next(iter(c)))
        elif isinstance(c, list):
            c.append(r.choice(self.passable)) if r.random() < 0.5 or not c else c.clear()
        self.evs.append({"k": "mutate", "obs": self.observe()})

    def chenv(self):
        r = self.rng
        k = r.choice(["A", "VX", "VY", "PATH"])
        if k == "PATH":
            os.environ[k] = r.choice([self.d1, self.d2, self.d1 + ":" + self.d2])
        elif k in os.environ and r.random() < 0.4:
            del os.environ[k]
        else:
            os.environ[k] = f"sys{self.n()}"
        self.evs.append({"k": "chenv", "env": self.sysenv()})

    # -- running --------------------------------------------------------------------
    def leaves(self, x):
        return x.commands if hasattr(x, "commands") else (x,)

    def sinks_of(self, x):
        out = []
        for c in self.leaves(x):
            out += [self.tok(c.options.output), self.tok(c.options.error)]
        return [t for t in out if t in self.getters or t in self.single]

    def runnable(self, x, taken):
        if _is_ctx(x):
            return False
        ls = self.leaves(x)
        if hasattr(x, "commands") and len(ls) < 2:
            return False
        from shellous import Command, Pipeline

        for c in ls:
            if any(isinstance(a, (Command, Pipeline)) for a in c.args):
                return False
            p = os.fsdecode(c.args[0])
            if os.path.basename(p) not in EXITS or (os.path.dirname(p) not in (self.d1, self.d2) and p not in EXITS):
                return False
            if any(b"\0" in text_of(a).encode() for a in c.args):
                return False
            if hasattr(x, "commands") and (os.path.basename(p) == "c" or c.options.exit_codes is not None and 0 not in c.options.exit_codes):
                return False
        used = self.sinks_of(x) + [self.tok(ls[0].options.input)]
        if len(set(self.sinks_of(x))) != len(self.sinks_of(x)) or used[-1] in used[:-1]:
            return False
        return not any(t in self.spent or (t in taken and t in self.getters) for t in used)

    async def one(self, idx, on, form, rec):
        from shellous import Result, ResultError

        RUN.set(idx)
        x = self.objs[on]
        res = None
        rec.update(on=on + 1, form=form, ret="none", code=-1, streams=[False] * 3, cap1=[], cap2=[], res=[], err=[],
                   seeout=False, seeerr=False, form_=form)
        del rec["form_"]
        try:
            if form == "await":
                res = await x
                rec["ret"] = type(res).__name__
            elif form == "iter":
                async for line in x:
                    rec["cap1"] += self.labels(line.encode())
            elif form == "with":
                async with x as run:
                    rec["streams"] = [run.stdin is not None, run.stdout is not None, run.stderr is not None]
                    if run.stdin is not None:
                        run.stdin.write(b"BODY\n")
                        run.stdin.close()
                    if run.stdout is not None:
                        rec["cap1"] = self.labels(await run.stdout.read(-1))
                    if run.stderr is not None:
                        rec["cap2"] = self.labels(await run.stderr.read(-1))
                res = run.result(check=False)
                rec["code"] = res.exit_code
                run.result()
            elif form == "prompt":
                async with x.prompt() as cli:
                    await cli.send("BODY")
                    cli.close()
                    rec["cap1"] = self.labels((await cli.read_all()).encode())
                res = cli.result
            rec["out"] = "ok"
        except Exception as ex:  # pylint: disable=broad-except
            rec["out"] = type(ex).__name__
            if isinstance(ex, ResultError):
                res = ex.result
        if isinstance(res, Result):
            rec.update(seeout=True, seeerr=True, res=self.labels(res.output_bytes), err=self.labels(res.error_bytes))
        elif isinstance(res, str):
            rec.update(seeout=True, res=self.labels(res.encode()))

    async def run_some(self):
        r = self.rng
        taken = set()
        picks = []
        for _ in range(r.choice([1, 1, 2, 3])):
            cand = [k for k, x in enumerate(self.objs) if self.runnable(x, taken)]
            if not cand:
                break
            k = r.choice(cand[-4:]) if r.random() < 0.7 else r.choice(cand)
            if picks and r.random() < 0.5 and picks[-1][0] in cand:
                k = picks[-1][0]
            x = self.objs[k]
            form = r.choice(["await", "await", "with", "iter", "prompt"])
            ls = self.leaves(x)
            if len(ls) + sum(len(self.leaves(self.objs[p])) for p, _ in picks) > 5:
                break
            used = self.sinks_of(x) + [self.tok(c.options.input) for c in ls]
            if any(t in self.single and t in taken for t in used):
                break
            taken.update(t for t in used if t in self.getters or t in self.single)
            picks.append((k, form))
        if not picks:
            return
        self.spent.update(t for t in taken if t in self.single)
        recs = [{} for _ in picks]
        first = len(self.world.children)
        del self.aud[:]
        ts = [asyncio.create_task(self.one(i, on, form, recs[i])) for i, (on, form) in enumerate(picks)]
        await asyncio.wait(ts)
        for t in ts:
            t.result()
        for _ in range(3):
            await asyncio.sleep(0)
        for e in self.ends:
            while e.enabled(self.world):
                e.fire(self.world)
        for i, rec in enumerate(recs):
            ch = self.chain([c for c in self.world.children[first:] if c.run == i])
            rec["ls"] = [self.launch(c) for c in ch]
            rec["aud"] = [t for j, t in self.aud if j == i]
        sinks = [{"s": t, "l": self.labels(g())} for t, g in self.getters.items()]
        self.evs.append({"k": "run", "rs": recs, "obs": self.observe(), "sys": self.sysenv(), "sinks": sinks, "hang": False})

    def chain(self, cs):
        "In pipeline order: the one whose input is another's output comes after it."
        outs = {c.ids.get(1): c for c in cs if 1 in c.ids}
        first = [c for c in cs if c.ids.get(0) not in outs]
        nxt = {}
        for c in cs:
            p = outs.get(c.ids.get(0))
            if p is not None:
                nxt[p.index] = c
        out = []
        for c in first:
            while c is not None and c not in out:
                out.append(c)
                c = nxt.get(c.index)
        return out + [c for c in cs if c not in out]

    def launch(self, c):
        fds = c.kwargs.get("pass_fds") or ()
        return {"argv": [canon(os.fsencode(a)) for a in c.args],
                "env": [[canon(os.fsencode(k)), canon(os.fsencode(v))] for k, v in c.env_at.items()],
                "kind": c.ik, "data": self.labels(bytes(c.rd)), "eof": c.eofs, "o": c.o, "e": c.e,
                "sess": bool(c.kwargs.get("start_new_session")), "pass": "fds:" + repr(list(fds)),
                "cfds": bool(c.kwargs.get("close_fds", True))}

    async def writer(self):
        rd, wr = os.pipe()
        rd = sim._high(rd)
        os.set_blocking(rd, False)
        end = End(rd)
        self.ends.append(end)
        self.closers.append((rd, sim.fd_ident(rd)))
        loop = asyncio.get_running_loop()
        rdr = asyncio.StreamReader()
        tr, proto = await loop.connect_write_pipe(lambda: asyncio.StreamReaderProtocol(rdr), os.fdopen(wr, "wb", 0))
        return asyncio.StreamWriter(tr, proto, None, loop), end

    def audit(self, tok):
        def cb(phase, info):
            if phase in ("start", "stop"):
                self.aud.append((RUN.get(), tok))

        return self.named(tok, "fn", cb)

    async def main(self, w):
        from shellous import sh

        r = self.rng
        self.pool = [await self.writer() for _ in range(2)]
        self.objs.append(sh)
        for _ in range(r.randrange(8, 22)):
            k = r.random()
            if k < 0.78:
                self.random_op()
            elif k < 0.82:
                self.chenv()
            elif k < 0.86:
                self.mutate()
            else:
                await self.run_some()
            if len(self.objs) > 14:
                break
        for _ in range(2):
            await self.run_some()

    def run(self):
        from shellous import CmdContext, Command, Pipeline

        self.kinds = (CmdContext, Command, Pipeline)
        self.tmp = tempfile.mkdtemp(prefix="vf")
        old = sys.stdin, sys.stdout, sys.stderr
        oldenv = dict(os.environ)
        try:
            for d in ("d1", "d2"):
                p = os.path.join(self.tmp, d)
                os.mkdir(p)
                setattr(self, d, p)
                for n in EXITS:
                    with open(os.path.join(p, n), "w") as f:
                        f.write("#!/bin/true\n")
                    os.chmod(os.path.join(p, n), 0o755)
            both = self.d1 + ":" + self.d2
            exits = {}
            for n, c in EXITS.items():
                self.where[n] = {f"str:{ascii(p)}": os.path.join(p.split(":")[0], n) for p in (self.d1, self.d2, both)}
                self.where[n].update({p: os.path.join(p.split(":")[0], n) for p in (self.d1, self.d2, both)})
                exits[n] = c
                for d in (self.d1, self.d2):
                    exits[os.path.join(d, n)] = c
            p = self.path(b"STDIN\n")
            sys.stdin = open(p, "rb")
            self.closers.append((sys.stdin, None))
            self.stdin_id = self.fid(p)
            same = self.rng.random() < 0.2  # both streams are one object
            for n, name in ((1, "stdout"), (2, "stderr")):
                p = self.path(b"")
                f = open(p, "a")
                if n == 1 or not same:
                    setattr(sys, name, f)
                else:
                    sys.stderr = sys.stdout
                self.closers.append((f, None))
                self.getters[f"inh{n}"] = lambda p=p: self.rd(p)
                self.types[f"inh{n}"] = "inherit"
            for k in list(os.environ):
                del os.environ[k]
            os.environ["PATH"] = self.d1
            os.environ["A"] = "sysA"
            os.environ["VX"] = "x"
            env0 = self.sysenv()
            self.passable = []
            for _ in range(3):
                fd = sim._high(os.open("/dev/null", os.O_RDONLY))
                self.passable.append(fd)
                self.closers.append((fd, sim.fd_ident(fd)))
            for t, fn in COERCE.items():
                self.named(t, "fn", fn)
            self.audit1, self.audit2 = self.audit("fn:audit1"), self.audit("fn:audit2")
            try:
                self.world.run(self.main)
            finally:
                if self.world.hung:
                    self.evs.append({"k": "run", "rs": [], "obs": self.observe(), "sys": self.sysenv(), "sinks": [], "hang": True})
        finally:
            sys.stdin, sys.stdout, sys.stderr = old
            os.environ.clear()
            os.environ.update(oldenv)
            for x, ident in self.closers:
                try:
                    if not isinstance(x, int):
                        x.close()
                    elif sim.fd_ident(x) == ident:
                        sim._real["close"](x)
                except OSError:
                    pass
            shutil.rmtree(self.tmp, ignore_errors=True)
        cfg = {"env0": env0, "types": self.types, "texts": self.texts, "codes": self.codes, "where": self.where, "exits": exits, "olds": self.olds, "same": same}
        return _rename({"cfg": cfg, "ev": self.evs}, self.tmp)


def _rename(x, tmp):
    "Traces must not depend on the name of the scratch directory."
    if isinstance(x, dict):
        return {_rename(k, tmp): _rename(v, tmp) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_rename(v, tmp) for v in x]
    if isinstance(x, str):
        return x.replace(tmp, "/T")
    return x


class _Many:
    "A one-shot sequence: built anew for the call."

    def __init__(self, ty, items):
        self.ty, self.items = ty, items


class _Bad:
    def __init__(self, ty):
        self.ty = ty


def _real(v):
    if isinstance(v, _Many):
        return _realseq(v)
    if isinstance(v, _Bad):
        return (x for x in "ab") if v.ty == "generator" else {"a": 1}.keys()
    if isinstance(v, list):
        return _inplace(v)
    if isinstance(v, tuple):
        return tuple(_real(x) for x in v)
    return v


def _inplace(v):
    for k, x in enumerate(v):
        if isinstance(x, (_Many, _Bad, list, tuple)):
            v[k] = _real(x)
    return v


def _realseq(v):
    if v.ty == "reversed":
        return reversed(tuple(_real(x) for x in reversed(v.items)))
    if v.ty == "enumerate":
        return enumerate([_real(x[1]) for x in v.items])
    return zip([_real(x[0]) for x in v.items], [x[1] for x in v.items])


def _is_ctx(o):
    return not hasattr(o, "commands") and not hasattr(o, "args")
