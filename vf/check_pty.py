"""Pseudo-terminal family: real children in real terminals."""
from . import core, fam_pty, family, models

FOCUS = ["", "", "", "end", "fault"]
_hangs = 0


def init():
    pass


def job(j):
    "Nothing more is run in a worker after a few runs that hang."
    global _hangs
    seed, focus = j
    if _hangs >= 2:
        return []
    out = fam_pty.run_scenario(fam_pty.random_scenario(seed, focus), seed)
    if any(e["k"] == "hang" for tr in out for e in tr["ev"]):
        _hangs += 1
        again = fam_pty.run_scenario(fam_pty.random_scenario(seed, focus), seed)
        if not any(e["k"] == "hang" for tr in again for e in tr["ev"]):
            out = again  # the machine was slow
    return [(tr, None) for tr in out]


def run(report):
    num = 2700 if report.tier == "quick" else 15000
    if report.prop != "C25":
        num //= 4
    base = core.SEED * 1000003 + int(report.prop[1:]) * 100000
    family.decide(report, "TPty", [(base + k, FOCUS[k % len(FOCUS)]) for k in range(num)], job, init=init,
                  replay_of=replay_of, short=short, name="pty")
    if report.prop == "C25":
        models.pty(report)
    report.assume += [
        "processes, terminals and the clock are the real ones; which of several real orders happens is not chosen by the check",
        "output to /dev/tty is only expected when the terminal is one of the child's standard streams",
        "lines of terminal input are shorter than the kernel's limit of 4095 bytes",
    ]


def short(e):
    e = dict(e)
    if "d" in e:
        e["d"] = "".join(chr(c) if c < 1000 else f"<{c - 1000}>" for c in e["d"])
    return family.short(e)


def replay_of(j, _):
    return dict(family="pty", seed=j[0], focus=j[1])


def replay(rp):
    core.init_worker()
    init()
    bad = []
    for tr, _ in job((rp["seed"], rp["focus"])):
        bad += family.show("TPty", tr, short)
    return bad
