"""Deterministic world for running the real shellous code.

The real library runs on a real asyncio selector loop with real pipes, real
ptys and the real asyncio subprocess transport; three things are replaced:

* time      -- the loop's clock is virtual; it moves only when the loop has
               nothing left to do and the environment says so.
* processes -- `Popen` is replaced by an in-process puppet (`Child`) that owns
               duplicates of the descriptors a forked child would own. Signals,
               exit, reaping are events decided by the environment.
* the environment -- at each point where the loop would block, a `driver`
               chooses what happens next (a child reads/writes/exits, the
               caller cancels, time passes ...).

Nothing in here imports or inspects shellous internals.
"""
import asyncio
import errno
import fcntl
import gc
import os
import pty
import selectors
import signal
import stat
import subprocess
import sys
import warnings
from asyncio import base_subprocess

FAKE_PID_BASE = 50_000_001

_real = {
    "waitpid": os.waitpid,
    "kill": os.kill,
    "close": os.close,
    "pipe": os.pipe,
    "openpty": os.openpty,
    "_open_terminal": pty._open_terminal,
    "killpg": os.killpg,
}

CURRENT = None  # the World in force


class Hang(Exception):
    pass


class WorldError(Exception):
    "Machinery failure, not a verdict."


def fd_ident(fd):
    try:
        st = os.fstat(fd)
    except OSError:
        return None
    return (st.st_dev, st.st_ino, stat.S_IFMT(st.st_mode))


def fd_snapshot():
    out = {}
    for name in os.listdir("/proc/self/fd"):
        fd = int(name)
        ident = fd_ident(fd)
        if ident is not None:
            out[fd] = ident
    return out


def _high(fd):
    new = fcntl.fcntl(fd, fcntl.F_DUPFD_CLOEXEC, 690)
    _real["close"](fd)
    return new


class Child:
    "A fake process. Descriptors are real duplicates held in this process."

    def __init__(self, world, args, kwargs):
        self.world = world
        self.pid = world.next_pid()
        self.args = [os.fsdecode(a) for a in args]
        self.name = os.path.basename(self.args[0])
        self.env = kwargs.get("env")
        self.kwargs = kwargs
        self.fds = {}  # child fd number -> our duplicate
        self.state = "run"  # run | exited | reaped
        self.code = None
        self.stolen = False  # exit status consumed by a poll, not the watcher
        self.transport = None
        self.notified = False
        self.disp = {}  # signal -> disposition
        self.pending_death = None
        self.got = bytearray()  # what it has read from stdin
        self.eof_in = False
        self.wrote = {1: bytearray(), 2: bytearray()}
        self.index = len(world.children)
        self.prog = None
        self.holders = []

    def alive(self):
        return self.state == "run"

    # -- I/O -----------------------------------------------------------
    def write(self, cfd, data):
        "Write what fits right now. Returns count, or -1 on EPIPE."
        fd = self.fds.get(cfd)
        if fd is None:
            return -1
        total = 0
        view = memoryview(data)
        while view:
            try:
                n = os.write(fd, view[:65536])
            except BlockingIOError:
                break
            except (BrokenPipeError, ConnectionResetError):
                return -1 if total == 0 else total
            except OSError as ex:
                if ex.errno == errno.EIO:
                    return -1
                raise
            total += n
            view = view[n:]
        if cfd in self.wrote:
            self.wrote[cfd] += bytes(data[:total])
        return total

    def read(self, cfd=0, n=65536):
        "Read what is there. b'' means EOF; None means would block."
        fd = self.fds.get(cfd)
        if fd is None:
            return b""
        try:
            data = os.read(fd, n)
        except BlockingIOError:
            return None
        except OSError as ex:
            if ex.errno == errno.EIO:
                data = b""
            else:
                raise
        if cfd == 0:
            if data:
                self.got += data
            else:
                self.eof_in = True
        return data

    def writable(self, cfd):
        fd = self.fds.get(cfd)
        if fd is None:
            return True
        return _poll1(fd, select_write=True)

    def readable(self, cfd=0):
        fd = self.fds.get(cfd)
        if fd is None:
            return True
        return _poll1(fd, select_write=False)

    def close(self, cfd):
        fd = self.fds.pop(cfd, None)
        if fd is not None:
            self.world.child_close(fd)

    # -- life ----------------------------------------------------------
    def exit(self, code):
        "Terminate; the parent is not told yet."
        if self.state != "run":
            return
        self.state = "exited"
        self.code = code
        for cfd in list(self.fds):
            self.close(cfd)
        self.world.on_exit(self)

    def hold(self, cfds=(1, 2)):
        "Leave copies of descriptors with a grandchild."
        for cfd in cfds:
            fd = self.fds.get(cfd)
            if fd is not None:
                self.holders.append(self.world.child_dup(fd))

    def release(self):
        for fd in self.holders:
            self.world.child_close(fd)
        self.holders.clear()

    def notify(self):
        "The child watcher reports the exit to the loop."
        if self.state == "run" or self.notified:
            return False
        self.notified = True
        code = 255 if self.stolen else self.code
        self.state = "reaped"
        tr = self.transport
        self.world.on_notify(self, code)
        if tr is not None:
            self.world.loop.call_soon(tr._process_exited, code)
        return True

    def deliver(self, sig):
        "A signal arrives."
        if self.state != "run":
            return
        how = self.disp.get(int(sig), "die")
        if int(sig) == 0:
            return
        if int(sig) == int(signal.SIGKILL):
            how = self.disp.get("KILL", "die")
        elif int(sig) in (int(signal.SIGCHLD), int(signal.SIGWINCH), int(signal.SIGCONT)) and how == "die":
            how = "ignore"
        if how == "die":
            self.exit(-int(sig))
        elif how == "ignore":
            pass
        elif isinstance(how, tuple) and how[0] == "exit":
            self.exit(how[1])
        elif isinstance(how, tuple) and how[0] == "later":
            # will exit at some later time chosen by the environment
            self.pending_death = how[1]
        else:
            raise WorldError(f"bad disposition {how!r}")


def _poll1(fd, select_write):
    import select

    p = select.poll()
    p.register(fd, select.POLLOUT if select_write else select.POLLIN)
    return bool(p.poll(0))


class FakePopen:
    "What asyncio's subprocess transport needs from subprocess.Popen."

    def __init__(self, world, args, stdin, stdout, stderr, bufsize, **kwargs):
        self.returncode = None
        self.args = args
        self.stdin = self.stdout = self.stderr = None
        PIPE, DEVNULL, STDOUT = subprocess.PIPE, subprocess.DEVNULL, subprocess.STDOUT
        world.check_exec(args, kwargs)  # may raise like exec does

        child = Child(world, args, kwargs)
        dup = world.child_dup

        def mine(fd, mode):
            return open(fd, mode, buffering=bufsize)

        try:
            if stdin is None:
                child.fds[0] = dup(0)
            elif stdin == PIPE:
                r, w = world.raw_pipe()
                child.fds[0] = dup(r)
                _real["close"](r)
                self.stdin = mine(w, "wb")
            elif stdin == DEVNULL:
                child.fds[0] = dup(world.devnull)
            else:
                child.fds[0] = dup(_fileno(stdin))

            for cfd, spec in ((1, stdout), (2, stderr)):
                if spec is None:
                    child.fds[cfd] = dup(cfd)
                elif spec == PIPE:
                    r, w = world.raw_pipe()
                    child.fds[cfd] = dup(w)
                    _real["close"](w)
                    if cfd == 1:
                        self.stdout = mine(r, "rb")
                    else:
                        self.stderr = mine(r, "rb")
                elif spec == DEVNULL:
                    child.fds[cfd] = dup(world.devnull)
                elif spec == STDOUT:
                    if cfd == 2:
                        child.fds[2] = dup(child.fds[1])
                    else:
                        raise WorldError("stdout=STDOUT")
                else:
                    child.fds[cfd] = dup(_fileno(spec))

            for fd in kwargs.get("pass_fds") or ():
                if fd not in child.fds:
                    child.fds[fd] = dup(fd)
            if not kwargs.get("close_fds", True) and not kwargs.get("pass_fds"):
                for name in os.listdir("/proc/self/fd"):
                    fd = int(name)
                    try:
                        if fd > 2 and fd not in child.fds and os.get_inheritable(fd):
                            child.fds[fd] = dup(fd)
                    except OSError:
                        pass
        except BaseException:
            for fd in child.fds.values():
                world.child_close(fd)
            raise
        child.pop_stdio = {0: stdin, 1: stdout, 2: stderr}
        self.child = child
        self.pid = child.pid
        child.popen = self
        world.on_spawn(child)

    def poll(self):
        if self.returncode is None and self.child.state == "exited":
            self.child.state = "reaped"
            self.child.stolen = True
            self.child.world.on_stolen(self.child)
            self.returncode = self.child.code
        return self.returncode

    def send_signal(self, sig):
        self.poll()
        if self.returncode is not None:
            return
        os.kill(self.pid, sig)

    def terminate(self):
        self.send_signal(signal.SIGTERM)

    def kill(self):
        self.send_signal(signal.SIGKILL)

    def wait(self, timeout=None):
        if self.poll() is None:
            raise WorldError("blocking Popen.wait in simulated world")
        return self.returncode


def _fileno(obj):
    return obj if isinstance(obj, int) else obj.fileno()


class SimTransport(base_subprocess.BaseSubprocessTransport):
    def _start(self, args, shell, stdin, stdout, stderr, bufsize, **kwargs):
        self._proc = FakePopen(
            self._loop.world, args, stdin, stdout, stderr, bufsize, **kwargs
        )


class SimSelector(selectors.EpollSelector):
    "Never blocks: asks the world what happens next instead."

    world = None

    def select(self, timeout=None):
        world = self.world
        if world is None or not world.active:
            return super().select(0 if world is not None else timeout)
        world.iteration += 1
        world.on_iteration(timeout)
        evs = super().select(0)
        if evs or timeout == 0:
            return evs
        if world.loop._ready:
            return evs
        # the loop would block now
        if world.slow_io:
            evs = super().select(world.slow_io)
            if evs:
                return evs
        world.quiescent(timeout)
        return super().select(0)


class SimLoop(asyncio.SelectorEventLoop):
    def __init__(self, world):
        self.world = world
        self._sel = SimSelector()
        self._sel.world = world
        super().__init__(self._sel)

    def time(self):
        return self.world.now if self.world.active else super().time()

    async def _make_subprocess_transport(
        self, protocol, args, shell, stdin, stdout, stderr, bufsize, extra=None, **kwargs
    ):
        waiter = self.create_future()
        transp = SimTransport(
            self, protocol, args, shell, stdin, stdout, stderr, bufsize,
            waiter=waiter, extra=extra, **kwargs,
        )
        child = transp._proc.child
        child.transport = transp
        try:
            await waiter
        except (SystemExit, KeyboardInterrupt):
            raise
        except BaseException:
            transp.close()
            await transp._wait()
            raise
        return transp


class DetTask(asyncio.Task):
    """The order in which a set of tasks is walked depends on their hashes,
    which are addresses. Make it depend on the run's seed only."""

    _h = None

    def __hash__(self):
        h = self._h
        if h is None:
            w = CURRENT
            n = 0
            if w is not None:
                w.n_tasks += 1
                n = w.n_tasks * 7919 + w.task_seed
            h = self._h = (n * 2654435761) & 0xFFFFFFF
        return h


def _new_task(loop, coro, **kw):
    return DetTask(coro, loop=loop, **kw)


_EAGER_TASKS = asyncio.create_eager_task_factory(DetTask)


class World:
    "One run of the real code in a chosen environment."

    def __init__(self, driver, *, max_iter=20000, slow_io=0.0, eager=False, debug=False):
        self.driver = driver
        self.events = []
        self.children = []
        self.now = 100.0
        self.t0 = self.now
        self.iteration = 0
        self.max_iter = max_iter
        self.slow_io = slow_io
        self.active = False
        self.loop = None
        self.eager = eager
        self.debug = debug
        self.devnull = None
        self.child_fds = set()  # descriptors held on behalf of children
        self.exec_fail = {}  # basename -> exception factory
        self.bad_close = []
        self.canaries = {}
        self.watch = {}  # fd -> ident: descriptors whose closing we track
        self.exc_ctx = []  # loop exception handler reports
        self.hung = False
        self._pid = FAKE_PID_BASE
        self.injections = {}
        self.pipes_made = []
        self.pending_cfds = 0
        self.on_started = None
        self.track = False
        self.os_fail = {}
        self.dbl = 0
        self.n_tasks = 0
        self.task_seed = 0

    # -- recording -----------------------------------------------------
    def rec(self, k, **kw):
        kw["k"] = k
        kw["t"] = int(round((self.now - self.t0) * 1000))
        self.events.append(kw)

    def next_pid(self):
        self._pid += 1
        return self._pid

    # -- fds -----------------------------------------------------------
    def raw_pipe(self):
        return _real["pipe"]()

    def child_dup(self, fd):
        # keep child's copies far away from the numbers the parent uses
        new = fcntl.fcntl(fd, fcntl.F_DUPFD_CLOEXEC, 700)
        # non-blocking is a property of the open file description, shared with
        # nobody that matters for pipes created by the library
        if stat.S_ISFIFO(os.fstat(new).st_mode) or os.isatty(new):
            new = self._reopen(new)
        self.child_fds.add(new)
        return new

    def _reopen(self, fd):
        "A private non-blocking description of the same pipe/tty end."
        flags = fcntl.fcntl(fd, fcntl.F_GETFL)
        acc = flags & os.O_ACCMODE
        try:
            new = os.open(f"/proc/self/fd/{fd}", acc | os.O_NONBLOCK | os.O_NOCTTY)
        except OSError:
            os.set_blocking(fd, False)
            return fd
        hi = fcntl.fcntl(new, fcntl.F_DUPFD_CLOEXEC, 700)
        _real["close"](new)
        _real["close"](fd)
        return hi

    def child_close(self, fd):
        if fd in self.child_fds:
            self.child_fds.discard(fd)
            _real["close"](fd)

    # -- process events -------------------------------------------------
    def check_exec(self, args, kwargs):
        name = os.path.basename(os.fsdecode(args[0]))
        exc = self.exec_fail.get(name)
        if exc is not None:
            self.rec("spawnfail", name=name)
            raise exc()

    def on_spawn(self, child):
        self.children.append(child)
        self.rec("spawn", p=child.index, name=child.name)
        self.driver.on_spawn(child)

    def on_exit(self, child):
        self.rec("exit", p=child.index, code=child.code)
        self.driver.on_exit(child)

    def on_notify(self, child, code):
        self.rec("reap", p=child.index, code=code)

    def on_stolen(self, child):
        self.rec("stolen", p=child.index)

    def child_of(self, pid):
        for c in self.children:
            if c.pid == pid:
                return c
        return None

    def sys_kill(self, pid, sig):
        if not isinstance(sig, int):
            # what os.kill does with a non-integer signal
            raise TypeError("'%s' object cannot be interpreted as an integer" % type(sig).__name__)
        child = self.child_of(pid)
        if child is None or child.state == "reaped":
            raise ProcessLookupError(errno.ESRCH, "No such process")
        self.rec("sig", p=child.index, sig=int(sig))
        child.deliver(sig)

    def sys_waitpid(self, pid, options):
        child = self.child_of(pid)
        if child is None or child.state == "reaped":
            raise ChildProcessError(errno.ECHILD, "No child processes")
        if child.state == "run":
            if options & os.WNOHANG:
                return (0, 0)
            raise WorldError("blocking waitpid in simulated world")
        child.state = "reaped"
        child.stolen = True
        self.on_stolen(child)
        code = child.code
        return (pid, (-code) if code < 0 else (code << 8))

    # -- scheduling ------------------------------------------------------
    def inject(self, iteration, fn):
        self.injections.setdefault(iteration, []).append(fn)

    def on_iteration(self, timeout):
        if self.iteration > self.max_iter:
            self.abort("too many iterations")
            return
        fns = self.injections.pop(self.iteration, None)
        if fns:
            for fn in fns:
                fn()
        self.driver.on_iteration(timeout)

    def quiescent(self, timeout):
        self.driver.quiescent(timeout)

    def advance(self, to=None):
        "Move time to the next timer (or to `to`)."
        sched = [h for h in self.loop._scheduled if not h._cancelled]
        if not sched:
            return False
        when = min(h._when for h in sched)
        if to is not None and to < when:
            self.now = to
        else:
            self.now = max(self.now, when)
        return True

    def timers(self):
        return sorted(h._when for h in self.loop._scheduled if not h._cancelled)

    def abort(self, why):
        if not self.hung:
            self.hung = True
            self.rec("hang", why=why)
        self.loop.stop()

    # -- top level -------------------------------------------------------
    def run(self, main):
        "Run coroutine function `main(world)` to completion or hang."
        global CURRENT
        CURRENT = self
        loop = self.loop = SimLoop(self)
        loop.set_task_factory(_EAGER_TASKS if self.eager else _new_task)
        loop.set_exception_handler(lambda _l, ctx: self.exc_ctx.append(ctx))
        asyncio.set_event_loop(loop)
        self.devnull = _high(os.open("/dev/null", os.O_RDWR))
        self.main_task = None
        self.canary_fd = _high(os.memfd_create("canary"))
        self.canary_ident = fd_ident(self.canary_fd)
        try:
            if self.on_started is not None:
                self.on_started()
            self.active = True
            task = self.main_task = loop.create_task(main(self), name="main")
            task.add_done_callback(lambda _t: loop.stop())
            while not task.done() and not self.hung:
                loop.run_forever()
            if task.done() and not task.cancelled() and task.exception() is not None:
                raise task.exception()
        finally:
            self.teardown()
            CURRENT = None

    def teardown(self):
        loop = self.loop
        self.active = False
        self.driver.dead = True
        try:
            for c in self.children:
                c.release()
                c.disp = {}
                if c.state == "run":
                    c.exit(-9)
                c.notify()
            for _ in range(4):
                tasks = asyncio.all_tasks(loop)
                for t in tasks:
                    t.cancel()
                for _ in range(6):
                    loop.call_soon(loop.stop)
                    loop.run_forever()
                if not tasks:
                    break
            loop.run_until_complete(loop.shutdown_asyncgens())
        except BaseException:
            pass
        for fd in list(self.child_fds):
            self.child_close(fd)
        _real["close"](self.devnull)
        _real["close"](self.canary_fd)
        for fd, ident in list(self.canaries.items()):
            try:
                if fd_ident(fd) == ident:
                    _real["close"](fd)
            except OSError:
                pass
        loop.close()
        asyncio.set_event_loop(None)


# -- OS-call routing ---------------------------------------------------------
def _waitpid(pid, options):
    if CURRENT is not None and pid >= FAKE_PID_BASE:
        return CURRENT.sys_waitpid(pid, options)
    return _real["waitpid"](pid, options)


def _kill(pid, sig):
    if CURRENT is not None:
        # never let a simulated run signal a real process
        if pid < FAKE_PID_BASE:
            CURRENT.rec("badkill", pid=int(pid))
            raise ProcessLookupError(errno.ESRCH, "No such process")
        return CURRENT.sys_kill(pid, sig)
    return _real["kill"](pid, sig)


def _killpg(pgid, sig):
    if CURRENT is not None:
        raise ProcessLookupError(errno.ESRCH, "No such process")
    return _real["killpg"](pgid, sig)


def track_closes(world):
    "Occupy every descriptor number the library has closed, to see it closed again."
    world.track = True


def _close(fd):
    w = CURRENT
    if w is None or not w.active or not w.track:
        return _real["close"](fd)
    if fd in w.canaries and fd_ident(fd) == w.canaries[fd]:
        # closed before: whatever is there now is not the library's to close
        w.dbl += 1
        raise OSError(errno.EBADF, "Bad file descriptor")
    try:
        _real["close"](fd)
    except OSError as ex:
        if ex.errno == errno.EBADF:
            w.dbl += 1
        raise
    fcntl.fcntl(w.canary_fd, fcntl.F_DUPFD_CLOEXEC, fd)
    if fd_ident(fd) == w.canary_ident:
        w.canaries[fd] = w.canary_ident
    else:
        raise WorldError("canary misplaced")


def _scarce(what):
    "The k-th call of this kind finds no descriptor left."
    w = CURRENT
    if w is not None and w.active and what in w.os_fail:
        w.os_fail[what] -= 1
        if w.os_fail[what] == 0:
            w.rec("scarce")
            raise OSError(errno.EMFILE, "Too many open files")


def _openpty():
    _scarce("openpty")
    return _real["openpty"]()


def _open_terminal():
    # pty.openpty() falls back on this
    if CURRENT is not None and CURRENT.active:
        raise OSError(errno.EMFILE, "Too many open files")
    return _real["_open_terminal"]()


def _pipe():
    w = CURRENT
    _scarce("pipe")
    r, wr = _real["pipe"]()
    if w is not None and w.active:
        w.pipes_made.append((r, wr))
        w.driver.on_pipe(r, wr)
    return r, wr


def install():
    os.waitpid = _waitpid
    os.kill = _kill
    os.killpg = _killpg
    os.close = _close
    os.pipe = _pipe
    os.openpty = _openpty
    pty._open_terminal = _open_terminal
    os.pidfd_open = _no_pidfd


def _no_pidfd(pid, flags=0):
    raise OSError(errno.ENOSYS, "not in the simulated world")


class Driver:
    "Base environment: subclasses decide."

    dead = False

    def __init__(self):
        self.world = None

    def on_spawn(self, child):
        pass

    def on_exit(self, child):
        pass

    def on_pipe(self, r, w):
        pass

    def on_iteration(self, timeout):
        pass

    def quiescent(self, timeout):
        raise NotImplementedError
