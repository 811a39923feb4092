"""Real threads taking turns under a chosen schedule, on a pretended kernel of
processes, pidfds, epolls and pipes. Only one thread runs at a time; whether it
goes on is decided before every bytecode of the code under test."""
import errno
import os
import select
import signal
import sys
import threading
import time as _time

from . import core

FD0 = 100000
ACTIVE = None  # the Sched of the run in progress


class Abort(BaseException):
    "The run is over: leave."


class Sched:
    def __init__(self, rng, density, max_steps=60000):
        self.rng = rng
        self.density = density  # chance of a switch at a point
        self.threads = []
        self.cur = None
        self.steps = 0
        self.max_steps = max_steps
        self.env = lambda: []  # actions the world can take now
        self.aborting = None
        self.now = 0.0
        self.done = threading.Semaphore(0)

    # -- threads -----------------------------------------------------------
    def me(self):
        t = threading.current_thread()
        return getattr(t, "_vf", None)

    def adopt(self, thread, fn, name):
        m = Managed(self, thread, fn, name)
        thread._vf = m
        self.threads.append(m)
        return m

    def runnable(self):
        return [m for m in self.threads if m.state == "ready" or (m.state == "park" and m.pred())]

    def point(self, force=False):
        "Another thread may run here."
        m = self.me()
        if m is None or self.cur is not m or m.busy:
            return
        if self.aborting:
            return
        self.steps += 1
        if self.steps > self.max_steps:
            self.abort("too many steps")
            return
        if not force and self.rng.random() >= self.density:
            return
        m.busy = True
        try:
            self.reschedule(m)
        finally:
            m.busy = False

    def park(self, pred):
        "Wait until `pred` holds."
        m = self.me()
        if self.aborting:
            raise Abort
        self.point(True)
        while not pred():
            m.pred = pred
            m.state = "park"
            m.busy = True
            try:
                self.reschedule(m)
            finally:
                m.busy = False
                m.state = "ready"
            if self.aborting:
                raise Abort

    def reschedule(self, m):
        "Give the turn to a thread that can run, or let the world act."
        while True:
            if self.aborting:
                return
            ready = self.runnable()
            acts = self.env()
            urgent = [a for a in acts if not a[0]]
            if ready and (not urgent or self.rng.random() < 0.8):
                nxt = self.rng.choice(ready)
                if nxt is m:
                    m.state = "ready"
                    return
                self.switch(m, nxt)
                return
            if urgent:
                self.rng.choice(urgent)[1]()
            elif ready:
                continue
            elif acts:  # nothing else to do: time goes by
                min(acts, key=lambda a: a[0])[1]()
            else:
                self.abort("stuck")
                return

    def switch(self, m, nxt):
        self.cur = nxt
        nxt.sem.release()
        if m is not None and m.state != "over":
            m.sem.acquire()

    def over(self, m):
        m.state = "over"
        if self.aborting:
            self.done.release()
            return
        while True:
            ready = self.runnable()
            if ready:
                self.switch(m, self.rng.choice(ready))
                return
            acts = self.env()
            if all(x.state == "over" for x in self.threads):
                self.done.release()
                return
            urgent = [a for a in acts if not a[0]]
            if urgent:
                self.rng.choice(urgent)[1]()
            elif acts:
                min(acts, key=lambda a: a[0])[1]()
            else:
                self.abort("stuck")
                self.done.release()
                return

    def abort(self, why):
        if not self.aborting:
            self.aborting = why
            self.where = [(m.name, m.state) for m in self.threads]

    def run(self, fn):
        "Run `fn` as the first thread, to the end of all threads."
        global ACTIVE
        ACTIVE = self
        try:
            t = threading.Thread(target=lambda: None, name="main", daemon=True)
            m = self.adopt(t, fn, "main")
            t.run = m.body
            START(t)
            self.cur = m
            m.sem.release()
            while not self.done.acquire(timeout=20):
                raise RuntimeError("the threads' scheduler hangs: " + repr([(x.name, x.state) for x in self.threads]))
            if self.aborting:
                for x in self.threads:
                    if x.state != "over":
                        x.sem.release()
                        JOIN(x.thread, 5)
        finally:
            ACTIVE = None


class Managed:
    def __init__(self, sched, thread, fn, name):
        self.sched, self.thread, self.fn, self.name = sched, thread, fn, name
        self.sem = threading.Semaphore(0)
        self.state = "ready"
        self.pred = None
        self.busy = False
        self.error = None

    def body(self):
        self.sem.acquire()
        s = self.sched
        try:
            if not s.aborting:
                sys.settrace(tracer)
                self.fn()
        except Abort:
            pass
        except BaseException as ex:
            self.error = ex
        finally:
            sys.settrace(None)
            s.over(self)


FILES = ("watcher.py", "util.py")
PREFIX = os.path.join(core.REPO, "shellous") + os.sep


def tracer(frame, event, arg):
    f = frame.f_code.co_filename
    if f.startswith(PREFIX) and f.endswith(FILES):
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        return local
    return None


def local(frame, event, arg):
    if event == "opcode" and ACTIVE is not None:
        ACTIVE.point()
    return local


# -- the pretended kernel ---------------------------------------------------
class Child:
    def __init__(self, num, pid, code):
        self.num, self.pid, self.code = num, pid, code
        self.state = "run"
        self.die_at = None
        self.fault = self.orphan = self.told = False

    @property
    def status(self):
        return (self.code << 8) if self.code >= 0 else -self.code


class Kernel:
    def __init__(self, sched, ev):
        self.sched, self.ev, self.rng = sched, ev, sched.rng
        self.children = []
        self.pids = {}  # pid -> child not reaped
        self.fds = {}
        self.freed = []
        self.fail = {}  # (call, child) -> errno, once
        self.reuse = 0.5

    def new_fd(self, obj):
        n = FD0
        while n in self.fds:
            n += 1
        self.fds[n] = obj
        return n

    def spawn(self, code):
        free = [p for p in self.freed if p not in self.pids]
        pid = self.rng.choice(free) if free and self.rng.random() < self.reuse else 50000 + len(self.children)
        c = Child(len(self.children) + 1, pid, code)
        self.children.append(c)
        self.pids[pid] = c
        return c

    def exit(self, c):
        c.state = "exited"
        self.ev("exit", c=c.num, code=c.code)

    def reap(self, c, who):
        c.state = "reaped"
        del self.pids[c.pid]
        # a number is used again only when the library knows that it is free
        self.freed = [p for p in self.freed if p != c.pid]
        if who == "lib":
            self.freed.append(c.pid)
        self.ev("reap", c=c.num, who=who)

    def boom(self, call, c):
        n = self.fail.pop((call, c), None)
        if n:
            c.fault = True
            self.ev("fault", c=c.num)
            raise OSError(n, os.strerror(n))

    # system calls
    def waitpid(self, pid, options):
        s = self.sched
        s.point(True)
        c = self.pids.get(pid)
        if c is None:
            raise ChildProcessError(errno.ECHILD, "No child processes")
        if not options & os.WNOHANG:
            s.park(lambda: c.state != "run")
        if c.state == "run":
            return 0, 0
        if c.state == "reaped":
            raise ChildProcessError(errno.ECHILD, "No child processes")
        self.reap(c, "lib")
        s.point(True)
        return pid, c.status

    def pidfd_open(self, pid, flags=0):
        self.sched.point(True)
        c = self.pids.get(pid)
        self.boom("pidfd_open", c)
        if c is None:
            raise ProcessLookupError(errno.ESRCH, "No such process")
        return self.new_fd(("pidfd", c))

    def kill(self, pid, sig):
        self.sched.point(True)
        c = self.pids.get(pid)
        if c is None:
            raise ProcessLookupError(errno.ESRCH, "No such process")
        self.ev("kill", c=c.num, sig=int(sig))
        if c.state == "run" and sig == signal.SIGKILL and c.die_at is None:
            c.code = -9
            c.die_at = self.sched.now + self.rng.choice([0, 0, 0.05, 1.0])

    def pipe(self):
        buf = []
        return self.new_fd(("r", buf)), self.new_fd(("w", buf))

    def write(self, fd, data):
        self.sched.point(True)
        if fd not in self.fds:
            raise OSError(errno.EBADF, "Bad file descriptor")
        self.fds[fd][1].append(bytes(data))
        return len(data)

    def read(self, fd, n):
        if fd not in self.fds:
            raise OSError(errno.EBADF, "Bad file descriptor")
        buf = self.fds[fd][1]
        self.sched.park(lambda: buf)
        return buf.pop(0)

    def close(self, fd):
        self.sched.point(True)
        if fd not in self.fds:
            self.ev("badclose")
            raise OSError(errno.EBADF, "Bad file descriptor")
        del self.fds[fd]

    def is_ready(self, obj):
        return obj[1].state != "run" if obj[0] == "pidfd" else obj[0] == "r" and bool(obj[1])


class Epoll:
    def __init__(self, sizehint=-1, flags=0):
        self.k = KERNEL
        self.fd = self.k.new_fd(("epoll", self))
        self.reg = {}
        self.closed = False

    def check(self):
        if self.closed:
            raise ValueError("I/O operation on closed epoll object")

    def fileno(self):
        return self.fd

    def register(self, fd, eventmask=None):
        self.k.sched.point(True)
        self.check()
        fd = fd if isinstance(fd, int) else fd.fileno()
        if self.k.fds.get(fd, "?")[0] == "pidfd":
            self.k.boom("register", self.k.fds[fd][1])
        if fd not in self.k.fds:
            raise OSError(errno.EBADF, "Bad file descriptor")
        if fd in self.reg and self.k.fds.get(fd) is self.reg[fd]:
            raise FileExistsError(errno.EEXIST, "File exists")
        self.reg[fd] = self.k.fds[fd]

    def modify(self, fd, eventmask):
        self.check()

    def unregister(self, fd):
        self.k.sched.point(True)
        self.check()
        if self.k.fds.get(fd) is None:
            raise OSError(errno.EBADF, "Bad file descriptor")
        if self.k.fds.get(fd) is not self.reg.get(fd):
            raise FileNotFoundError(errno.ENOENT, "No such file or directory")
        del self.reg[fd]

    def ready(self):
        return [f for f, o in self.reg.items() if self.k.fds.get(f) is o and self.k.is_ready(o)]

    def poll(self, timeout=None, maxevents=-1):
        self.check()
        s = self.k.sched
        if timeout is None or timeout < 0:
            s.park(lambda: self.closed or self.ready())
        else:
            end = s.now + timeout
            s.park(lambda: self.closed or self.ready() or s.now >= end)
        self.check()
        r = self.ready()
        self.k.rng.shuffle(r)
        return [(f, select.EPOLLIN) for f in (r if maxevents < 0 else r[:maxevents])]

    def close(self):
        self.k.sched.point(True)
        if not self.closed:
            self.closed = True
            del self.k.fds[self.fd]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Lock:
    def __init__(self):
        self.held = False

    def acquire(self, blocking=True, timeout=-1):
        if not blocking and self.held:
            return False
        ACTIVE.park(lambda: not self.held)
        self.held = True
        return True

    def release(self):
        self.held = False
        ACTIVE.point(True)

    def locked(self):
        return self.held

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


KERNEL = None
START, JOIN = threading.Thread.start, threading.Thread.join
REAL = {}


def ours():
    return ACTIVE is not None and KERNEL is not None and ACTIVE.me() is not None


def install():
    "Put the pretended kernel behind os, select and threading."
    if REAL:
        return
    import shellous.watcher
    for name in ("waitpid", "pidfd_open", "kill", "pipe", "write", "read", "close"):
        REAL[name] = getattr(os, name)

    def wrap(name):
        real = REAL[name]

        def call(*a, **kw):
            if ours() and (name in ("waitpid", "pidfd_open", "kill", "pipe") or a[0] >= FD0):
                return getattr(KERNEL, name)(*a, **kw)
            return real(*a, **kw)

        return call

    for name in REAL:
        setattr(os, name, wrap(name))
    REAL["epoll"] = select.epoll
    REAL["Lock"] = threading.Lock

    def epoll(*a, **kw):
        return Epoll(*a, **kw) if ours() else REAL["epoll"](*a, **kw)

    def lock():
        if ours() and sys._getframe(1).f_globals.get("__name__", "").startswith("shellous"):
            return Lock()
        return REAL["Lock"]()

    def start(self):
        s = ACTIVE
        if s is None or s.me() is None:
            return START(self)
        m = s.adopt(self, self.run, self.name)
        self.run = m.body
        START(self)
        s.point(True)
        return None

    def join(self, timeout=None):
        m = getattr(self, "_vf", None)
        s = ACTIVE
        if m is None or s is None or s.me() is None:
            return JOIN(self, timeout)
        if timeout is None:
            s.park(lambda: m.state == "over")
        else:
            end = s.now + timeout
            s.park(lambda: m.state == "over" or s.now >= end)
        return None

    def is_alive(self):
        m = getattr(self, "_vf", None)
        return m.state != "over" if m is not None else ALIVE(self)

    ALIVE = threading.Thread.is_alive
    select.epoll = epoll
    threading.Lock = lock
    threading.Thread.start = start
    threading.Thread.join = join
    threading.Thread.is_alive = is_alive
