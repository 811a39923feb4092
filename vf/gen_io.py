"""Random topologies, volumes and orders for the IO family, each with the
configuration record of spec/RunIO.tla."""
import random

from .fam_io import Source

VOL = [0, 1, 5, 100, 1023, 1024, 1025, 4096, 8191, 8192, 8193, 20000, 65535, 65536, 65537, 100000, 150000, 300000]
SMALL = [0, 1, 5, 100, 1023, 1024, 1025, 3000, 8192, 8193, 20000]
OUTS = ["bytearray", "bytesio", "stringio", "path", "fd", "fdc", "file", "filec", "logger", "writer", "inherit"]
INS = ["str", "bytes", "bytearray", "path", "fd", "fdc", "bytesio", "stringio", "reader", "inherit", "null"]


class Gen:
    def __init__(self, seed, focus):
        self.r = random.Random(f"io{seed}{focus}")
        self.focus = focus
        self.src = {}
        self.ch = {}
        self.conn = {}
        self.scripts = {}
        self.ret = {}
        self.stdin = None
        self.enc = None
        self.text = None
        self.inherit = set()
        self.whole = False  # sources must be written completely

    def vol(self, small=False):
        r = self.r
        if r.random() < 0.15:
            return r.randrange(0, 30000)
        return r.choice(SMALL if small or r.random() < 0.4 else VOL)

    def chunk(self, n):
        r = self.r
        c = [n or 1, 65536, 8192, 3000]
        if n <= 20000:
            c += [1000, 777]
        if n <= 400:
            c += [7, 13]
        if n <= 40:
            c += [1, 2]
        return max(1, r.choice(c))

    def source(self, tag, size, nl=0, endnl=False, crlf=False):
        self.src[tag] = (size, self.text, nl, crlf, endnl)
        return size

    def size(self, tag):
        return len(Source(tag, list(self.src).index(tag), *self.src[tag]).data)

    def chan(self, name, kind, prop, lim=0, w=(), r=(), fed=None):
        f = []
        if fed:
            n = self.size(fed)
            if n:
                f = [{"s": fed, "a": 0, "b": n}]
        self.ch[name] = dict(kind=kind, prop=prop, lim=lim, w=list(w), r=list(r), fed=f)
        return name

    # -- redirections ------------------------------------------------------
    def input(self, n, user=False):
        "Input of the first command: (spec, channel)"
        r = self.r
        name = f"in:{n}"
        if user:
            self.chan(name, "user", "C10", r=[n])
            return ("capture",), name
        k = r.random()
        if k < (0.1 if self.focus == "in" else 0.35):
            self.chan(name, "feed", "C10", r=[n])
            return None, name
        kind = r.choice(INS)
        if self.text == "raw" and kind in ("str", "stringio") and self.enc is None:
            kind = "bytes"
        if kind == "null":
            self.chan(name, "null", "C10", r=[n])
            return ("null",), name
        self.source("i", self.vol())
        direct = kind in ("path", "fd", "fdc", "inherit")
        self.chan(name, "direct" if direct else "feed", "C10", r=[n], fed="i")
        if kind == "inherit":
            self.stdin = "i"
        if kind == "reader" and self.src["i"][0] > 0 and r.random() < 0.4:
            # A reader that goes on delivering, for as long as anyone asks.
            self.live = [kind, "i", max(500, self.chunk(self.src["i"][0])), r.choice([0.02, 0.3])]
            self.liven = n
            return self.live, name
        return (kind, "i", self.chunk(self.src["i"][0]) if kind == "reader" else 0), name

    def dest(self, chan, n, prop, fd, extra=()):
        "A destination for descriptor fd of n: spec"
        r = self.r
        kinds = [k for k in OUTS if k not in extra]
        if fd in self.inherit or self.inherit:
            kinds = [k for k in kinds if k != "inherit"]
        if self.text == "raw":
            kinds = [k for k in kinds if k not in ("logger",)]
        if self.text == "raw" and self.enc is None:
            kinds = [k for k in kinds if k != "stringio"]
        kind = r.choice(kinds)
        direct = kind in ("path", "fd", "fdc", "file", "filec", "inherit")
        self.chan(chan, "direct" if direct else "sink", prop, w=[n])
        if kind == "inherit":
            self.inherit.add(fd)
        if kind == "logger":
            return ("logger",)
        if kind == "writer":
            return ("writer", 0, 0, self.chunk(20000))
        app = r.random() < 0.4 and kind not in ("fd", "fdc", "inherit")
        old = r.random() < 0.6 and not (kind == "stringio" and self.enc)
        if old and "old" not in self.src:
            self.src["old"] = (r.choice([1, 10, 500, 5000]), None, 0, False, False)
        return (kind, app, old, fd)

    # -- programs ------------------------------------------------------------
    def program(self, n, outs, ins, code=None):
        """outs: [(fd, tag)], ins: [fd]. A random interleaving of writing all
        of each source and of reading."""
        r = self.r
        lanes = []
        cat = None
        if ins and outs and outs[0][1] == "cat":
            cat = ("cat", ins[0], outs[0][0], self.chunk(20000))
            lanes.append([cat] + ([("close", outs[0][0])] if r.random() < 0.2 else []))
            outs, ins = outs[1:], ins[1:]
        for fd, tag in outs:
            size = self.size(tag)
            lane = []
            pieces = r.choice([1, 1, 2, 3]) if size > 3 else 1
            left = size
            for k in range(pieces):
                m = left if k == pieces - 1 else r.randrange(0, left + 1)
                left -= m
                if m or not size:
                    lane.append(("w", fd, tag, m, self.chunk(m)))
            if r.random() < 0.15:
                lane.append(("close", fd))
            lanes.append(lane)
        for fd in ins:
            k = r.random()
            lane = []
            if k < 0.6 or self.whole:
                if r.random() < 0.3:
                    m = r.choice([1, 10, 5000])
                    lane.append(("r", fd, m, min(m, self.chunk(m))))
                lane.append(("rall", fd, r.choice([65536, 8192, 4000])))
                if r.random() < 0.2:
                    lane.append(("close", fd))
            elif k < 0.75:
                m = r.choice([1, 100, 8192, 70000])
                lane.append(("r", fd, m, self.chunk(m)))
                if r.random() < 0.5:
                    lane.append(("close", fd))
            elif k < 0.85:
                lane.append(("close", fd))
            lanes.append(lane)
        ops = []
        lanes = [x for x in lanes if x]
        while lanes:
            x = r.choice(lanes)
            ops.append(x.pop(0))
            lanes = [x for x in lanes if x]
            if r.random() < 0.04:
                ops.append(("sleep", r.choice([0.1, 2.0])))
        if code is None:
            code = 0 if r.random() < 0.85 else r.choice([1, 3, 255])
        ops.append(("x", code))
        self.scripts[n] = ops

    # -- scenarios --------------------------------------------------------------
    def scenario(self):
        r = self.r
        f = self.focus
        self.how = r.randrange(2)
        k = r.random()
        if f not in ("iter", "sub") and k < 0.25:
            self.enc, self.text = r.choice([("latin-1", "raw"), ("utf-8 surrogateescape", "raw"), ("utf-16-le", "utf-16-le"),
                                            ("utf-8", "utf-8"), (None, "utf-8")])
            self.whole = self.text != "raw"
        elif f == "iter" and k < 0.3:
            self.enc, self.text = r.choice([("latin-1", "raw"), ("utf-8 surrogateescape", "raw")])
        elif f == "iter" and k < 0.45:
            self.enc, self.text = r.choice([("utf-8", "utf-8"), (None, "utf-8"), ("utf-8 strict", "utf-8")])
            self.whole = True
        elif f == "iter" and k < 0.48:
            self.enc, self.text = "utf-16-le", "utf-16-le"
            self.whole = True
        shape = {"sub": "sub", "pipe": "pipe", "iter": r.choice(["one", "pipe"])}.get(f) or r.choice(
            ["one", "one", "one", "pipe", "sub"] if f == "" else ["one", "one", "one", "pipe"])
        if shape == "sub" or (shape == "pipe" and self.text):
            self.enc = self.text = None
            self.whole = False
        form = "iter" if f == "iter" and r.random() < 0.7 else r.choice(["await", "await", "result", "with"])
        if f == "iter" and form != "iter":
            form = "with"
        if f == "err":
            form = r.choice(["result", "result", "await", "with"])
        self.form = form
        body = {}
        self.live = None
        top = getattr(self, shape)(body)
        if self.live:
            ops = [op for op in self.scripts[self.liven] if op[1:2] == ("0",) and op[0] != "close"]
            if any(op[0] != "r" for op in ops) or sum(op[2] for op in ops) > self.src["i"][0]:
                self.live.pop()
        props = sorted({c["prop"] for c in self.ch.values()} | {"C11"} | ({"C17"} if form == "iter" else set()))
        nl = {}
        for t in self.src:
            nl[t] = Source(t, list(self.src).index(t), *self.src[t]).nl if form == "iter" or body.get("lines") else []
        cfg = dict(names=list(self.conn), conn=self.conn, ch=self.ch, nl=nl, solo=shape == "one", props=props)
        sc = dict(cmd=top, form=form, scripts=self.scripts, sources=self.src, cfg=cfg, ret=self.ret, body=body)
        if self.enc:
            sc["encoding"] = self.enc
        if self.stdin:
            sc["stdin"] = self.stdin
        if form == "iter":
            sc["iterchan"] = self.iterchan
            if r.random() < 0.15:
                sc["brk"] = r.choice([1, 2, 10])
        sc["errcut"] = True
        return sc

    def outsrc(self, tag, lines=False):
        r = self.r
        if lines and not any(x[2] for x in self.src.values()):  # newlines come from one source only
            avg = r.choice([1, 5, 60, 300, 5000])
            size = min(self.vol(), avg * 150)
            if self.text == "raw":
                size = min(size, 20000)
            self.src[tag] = (size, self.text, 0 if self.text == "raw" else avg, r.random() < 0.3, r.random() < 0.5)
        else:
            self.source(tag, self.vol())
        return tag

    def stderr(self, n, node, solo, last, outchan, outtag):
        "Standard error of n. Returns (channel, tag)."
        r = self.r
        name = f"err:{n}"
        k = r.random()
        tag = f"e{n}"
        merged_ok = self.text is None and "2" not in self.inherit
        if k < (0.75 if self.focus == "err" else 0.4):  # the default, or BUFFER
            lim = r.choice([1024, 1024, 0, 1, 10, 1023, 4096, 70000, None])
            if lim != 1024:
                node.setdefault("opt", {})["error_limit"] = lim
            if r.random() < 0.2:
                node["err"] = ("buffer",)
            self.source(tag, self.vol(small=self.focus != "err"))
            self.chan(name, "sink" if lim is None else "lim", "C09", lim=lim or 0, w=[n])
            if solo or last:
                self.ret_err = name
            return name, tag
        if k < 0.6 and merged_ok and outchan is not None:
            node["err"] = ("stdout",)
            self.outsrc(tag, lines=self.lines)
            return outchan, tag
        if k < 0.7:
            node["err"] = ("null",)
            self.chan(name, "null", "C26", w=[n])
            self.source(tag, self.vol(small=True))
            return name, tag
        node["err"] = self.dest(name, n, "C08", 2)
        self.source(tag, self.vol(small=True))
        self.fix_logger(node["err"], tag)
        return name, tag

    def fix_logger(self, spec, tag):
        if spec[0] == "logger":
            size = self.src[tag][0]
            avg = self.r.choice([5, 60, 3000])
            self.src[tag] = (min(size, avg * 100), self.text, avg, False, True)

    def one(self, body):
        r = self.r
        n = "a"
        node = {"n": n, "how": self.how}
        conn = self.conn[n] = {}
        self.ret_err = None
        self.lines = self.form == "iter" or (self.focus == "iter")
        user = self.form == "with" and r.random() < 0.6
        spec, conn["0"] = self.input(n, user)
        node["in"] = spec
        if user:
            self.source("u", self.vol())
            size = self.size("u")
            acts, pos = [], 0
            while pos < size:
                m = r.choice([size - pos, 1, 100, 9000])
                m = min(m, size - pos)
                if len(acts) > 5:
                    m = size - pos
                acts.append(("write", "u", pos, pos + m))
                pos += m
                if r.random() < 0.1:
                    acts.append(("sleep", 0.2))
            body["w"], body["wc"] = acts, conn["0"]
            self.whole = True
        name = f"out:{n}"
        # standard output
        only = self.form in ("await", "result", "iter") and r.random() < 0.07
        cat = r.random() < 0.2 and spec is not None and spec[0] != "null" and not self.lines and not only and not self.text
        if only:  # standard error only
            node["out"], node["err"] = ("null",), ("stdout",)
            self.chan(name, "null", "C26", w=[n])
            conn["1"] = name
            self.source(f"o{n}", self.vol(small=True))
            conn["2"] = self.chan(f"err:{n}", "user" if self.form == "iter" else "sink",
                                  "C17" if self.form == "iter" else "C08", w=[n])
            self.outsrc(f"e{n}", self.lines)
            if self.form == "iter":
                self.ch[conn["2"]]["w"] = [n]
                self.iterchan = conn["2"]
            else:
                self.ret["out"] = conn["2"]
            self.program(n, [("1", f"o{n}"), ("2", f"e{n}")], ["0"])
            return node
        deflt = self.form == "iter" or r.random() < (0.4 if self.focus != "out" else 0.15)
        if deflt:
            if self.form in ("await", "result") or (self.form == "with" and not self.lines and r.random() < 0.4):
                self.chan(name, "sink", "C08", w=[n])
                self.ret["out"] = name
                if r.random() < 0.3:
                    node["out"] = ("buffer",)
            else:
                if self.form == "with":
                    node["out"] = ("capture",)
                self.chan(name, "user", "C17" if self.form == "iter" or self.lines else "C08", w=[n])
                if self.form == "iter":
                    self.iterchan = name
                elif self.lines:
                    body["lines"] = name
                else:
                    body["r"], body["rc"] = r.choice([65536, 1000, 20000]), name
        elif self.form == "with" and r.random() < 0.2 and not user:
            self.chan(name, "user", "C08", w=[n])
            node["out"] = ("capture",)
            body["r"], body["rc"] = 9000, name
        else:
            node["out"] = self.dest(name, n, "C08", 1)
        conn["1"] = name
        if cat:
            outs = [("1", "cat")]
        else:
            self.outsrc(f"o{n}", self.lines and deflt)
            if node.get("out"):
                self.fix_logger(node["out"], f"o{n}")
            outs = [("1", f"o{n}")]
        logged = (node.get("out") or ("",))[0] == "logger"
        if cat and logged:
            node["out"] = None
            self.chan(name, "sink", "C08", w=[n])
            self.ret["out"] = name
        if self.form == "with" and r.random() < 0.2 and body.get("lines") is None:
            conn["2"] = self.chan(f"err:{n}", "user", "C08", w=[n])
            node["err"] = ("capture",)
            body["e"], body["ec"] = 4096, conn["2"]
            tag = f"e{n}"
            self.source(tag, self.vol(small=True))
        else:
            conn["2"], tag = self.stderr(n, node, True, True, None if logged else name, None)
            if self.ret_err and self.form in ("result", "with"):
                self.ret["err"] = self.ret_err
        if cat and conn["2"] == name:
            # keep the merge recognisable: what is copied first, then the rest
            self.scripts[n] = [("cat", "0", "1", self.chunk(20000)), ("w", "2", tag, self.size(tag), 65536), ("x", 0)]
            return node
        outs.append(("2", tag))
        self.program(n, outs, ["0"])
        return node

    def pipe(self, body):
        r = self.r
        k = r.choice([2, 2, 3, 4])
        names = ["a", "b", "c", "d"][:k]
        nodes = []
        self.ret_err = None
        self.lines = self.form == "iter" or self.focus == "iter"
        prev = None
        for j, n in enumerate(names):
            node = {"n": n, "how": self.how}
            conn = self.conn[n] = {}
            last = j == k - 1
            ins = ["0"]
            if j == 0:
                spec, conn["0"] = self.input(n, False)
                if spec is not None and spec[0] == "capture":
                    spec = None
                node["in"] = spec
            else:
                conn["0"] = prev
                self.ch[prev]["r"] = [n]
                if r.random() < 0.12:
                    # The pipe takes the place of a redirection of its own.
                    node["in"] = r.choice([("null",), ("capture",), ("inherit",)])
            name = f"out:{n}"
            tag = None
            if last:
                if self.form in ("await", "result"):
                    if r.random() < 0.6:
                        self.chan(name, "sink", "C08", w=[n])
                        self.ret["out"] = name
                    else:
                        node["out"] = self.dest(name, n, "C08", 1, ("logger",))
                elif self.form == "iter":
                    self.chan(name, "user", "C17", w=[n])
                    self.iterchan = name
                else:
                    self.chan(name, "user", "C08", w=[n])
                    node["out"] = ("capture",)
                    body["r"], body["rc"] = r.choice([65536, 5000]), name
                    if self.lines:
                        body.pop("r")
                        body["lines"] = name
                        self.ch[name]["prop"] = "C17"
            else:
                self.chan(name, "pipe", "C12", w=[n])
                if r.random() < 0.12:
                    node["out"] = r.choice([("null",), ("capture",)])
            if r.random() < 0.25:
                node["opt"] = {"close_fds": False}
            conn["1"] = prev = name
            hascat = j > 0 and r.random() < 0.7
            if hascat:
                outs = [("1", "cat")]
            elif len(self.src) < 5:
                self.outsrc(f"o{n}", self.lines)
                outs = [("1", f"o{n}")]
            else:
                outs = []
            if len(self.src) < 5 and r.random() < 0.5:
                conn["2"], tag = self.stderr(n, node, False, last, None, None)
                outs.append(("2", tag))
                if last and self.ret_err and self.form in ("result",):
                    self.ret["err"] = self.ret_err
            else:
                conn["2"] = self.chan(f"err:{n}", "lim", "C09", lim=1024, w=[n])
            self.program(n, outs, ins)
            nodes.append(node)
        return {"pipe": nodes}

    def sub(self, body):
        r = self.r
        self.lines = False
        n = "a"
        node = {"n": n, "how": self.how, "args": []}
        conn = self.conn[n] = {}
        spec, conn["0"] = self.input(n, False)
        node["in"] = spec
        name = f"out:{n}"
        if self.form == "with":
            self.chan(name, "user", "C08", w=[n])
            node["out"] = ("capture",)
            body["r"], body["rc"] = 8000, name
        else:
            self.chan(name, "sink", "C08", w=[n])
            self.ret["out"] = name
        if self.form == "iter":
            self.form = "await"
        conn["1"] = name
        conn["2"] = self.chan(f"err:{n}", "lim", "C09", lim=1024, w=[n])
        outs, ins = [], []
        cnt = r.choice([1, 1, 2])
        for j in range(cnt):
            m = "bc"[j]
            fd = f"s{j}"
            ch = f"sub:{m}"
            inner = {"n": m}
            ic = self.conn[m] = {}
            ic["2"] = self.chan(f"err:{m}", "lim", "C09", lim=1024, w=[m])
            wr = r.random() < 0.4
            if wr:
                inner["wr"] = True
                self.chan(ch, "pipe", "C14", w=[n], r=[m])
                ic["0"] = ch
                iname = f"out:{m}"
                self.chan(iname, "sink", "C08", w=[m])
                if r.random() < 0.6:
                    inner["out"] = self.dest(iname, m, "C14", 1, ("logger", "inherit", "writer"))
                ic["1"] = iname
                self.source(f"o{n}{j}", self.vol())
                outs.append((fd, f"o{n}{j}"))
                self.program(m, [("1", "cat")], ["0"], code=0)
            else:
                self.chan(ch, "pipe", "C14", w=[m], r=[n])
                ic["1"] = ch
                ic["0"] = self.chan(f"in:{m}", "feed", "C10", r=[m])
                if r.random() < 0.5:
                    self.source(f"i{m}", self.vol())
                    ic["0"] = self.chan(f"in:{m}", "feed", "C10", r=[m], fed=f"i{m}")
                    inner["in"] = ("bytes", f"i{m}")
                    self.program(m, [("1", "cat")], ["0"], code=0)
                else:
                    self.source(f"o{m}", self.vol())
                    self.program(m, [("1", f"o{m}")], ["0"], code=0)
                ins.append(fd)
            conn[fd] = ch
            node["args"].append(inner)
        if ins and r.random() < 0.6:
            outs.insert(0, ("1", "cat"))
        if r.random() < 0.3:
            node["passfds"] = r.random() < 0.5
        self.program(n, outs, ins)
        if r.random() < 0.3:
            self.scripts[n].insert(-1, ("rall", "0", 65536))
        return node


def random_scenario(seed, focus=""):
    return Gen(seed, focus).scenario()
