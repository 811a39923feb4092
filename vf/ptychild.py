"""The child of a pty scenario: reports what its terminal looks like, then
follows its plan. Usage: ptychild.py PLAN REPORT"""
import fcntl
import json
import os
import signal
import stat
import struct
import sys
import termios
import time

PLAN, REPORT = sys.argv[1:3]
OPEN = sorted(int(n) for n in os.listdir("/proc/self/fd"))  # includes the listing's own
OPEN = [n for n in OPEN if n > 2 and os.path.exists(f"/proc/self/fd/{n}")]
signal.signal(signal.SIGINT, signal.SIG_DFL)
rep = os.open(REPORT, os.O_WRONLY | os.O_APPEND | os.O_CREAT | os.O_CLOEXEC, 0o600)


def say(k, **kw):
    os.write(rep, (json.dumps(dict(kw, k=k)) + "\n").encode())


def kind(fd):
    try:
        st = os.fstat(fd)
    except OSError:
        return "closed"
    if os.isatty(fd):
        return "term"
    if stat.S_ISFIFO(st.st_mode) or stat.S_ISSOCK(st.st_mode):
        return "pipe"
    if stat.S_ISCHR(st.st_mode):
        return "null" if st.st_rdev == os.stat("/dev/null").st_rdev else "chr"
    return "file"


def facts():
    kinds = [kind(fd) for fd in (0, 1, 2)]
    with open("/proc/self/stat", "rb") as f:
        tty_nr = int(f.read().rsplit(b")", 1)[1].split()[4])
    devs = {os.fstat(fd).st_rdev for fd in (0, 1, 2) if kinds[fd] == "term"}
    try:
        fd = os.open("/dev/tty", os.O_RDWR | os.O_NOCTTY)
    except OSError:
        say("facts", std=kinds, extra=len(OPEN), ctty=False, same=False, leader=os.getsid(0) == os.getpid(), fg=False,
            rows=0, cols=0, echo=False, canon=False, opost=False, isig=False, icrnl=False)
        return
    at = termios.tcgetattr(fd)
    rows, cols = struct.unpack("HHHH", fcntl.ioctl(fd, termios.TIOCGWINSZ, b"\0" * 8))[:2]
    # the terminal's number in stat is encoded like new_encode_dev
    same = all((os.major(d) << 8 | (os.minor(d) & 0xFF) | (os.minor(d) >> 8) << 20) == tty_nr for d in devs)
    say("facts", std=kinds, extra=len(OPEN), ctty=tty_nr != 0, same=same, leader=os.getsid(0) == os.getpid(),
        fg=os.tcgetpgrp(fd) == os.getpgrp(), rows=rows, cols=cols, echo=bool(at[3] & termios.ECHO),
        canon=bool(at[3] & termios.ICANON), opost=bool(at[1] & termios.OPOST), isig=bool(at[3] & termios.ISIG),
        icrnl=bool(at[0] & termios.ICRNL))
    os.close(fd)


def put(fd, data):
    while data:
        data = data[os.write(fd, data):]


def read(n=65536):
    try:
        data = os.read(0, n)
    except OSError as ex:
        say("readerr", errno=ex.errno)
        return None
    say("got", d=list(data))
    return data


def main():
    with open(PLAN) as f:
        plan = json.load(f)
    facts()
    for op, *a in plan:
        if op == "read":
            read()
        elif op == "readeof":
            while read():
                pass
        elif op == "readn":
            n = a[0]
            while n > 0:
                d = read(n)
                if not d:
                    break
                n -= len(d)
        elif op == "write":
            say("will", fd=a[0], d=list(a[1].encode()))
            put(a[0], a[1].encode())
            say("wrote")
        elif op == "bulk":
            say("will", fd=a[0], d=[1000 + a[1]])
            put(a[0], b"Z" * a[1])
            say("wrote")
        elif op == "tty":
            say("will", fd=9, d=list(a[0].encode()))
            fd = os.open("/dev/tty", os.O_RDWR | os.O_NOCTTY)
            put(fd, a[0].encode())
            os.close(fd)
            say("wrote")
        elif op == "setecho":
            at = termios.tcgetattr(0)
            at[3] = at[3] | termios.ECHO if a[0] else at[3] & ~termios.ECHO
            termios.tcsetattr(0, termios.TCSADRAIN, at)
        elif op == "sleep":
            time.sleep(a[0] / 1000)
        elif op == "fork":
            if os.fork() == 0:
                signal.signal(signal.SIGHUP, signal.SIG_IGN)
                os.close(rep)
                time.sleep(a[0] / 1000)
                os._exit(0)
        elif op == "exit":
            say("exit", code=a[0])
            os._exit(a[0])


main()
