"""Watcher family: the child watcher's threads under chosen schedules."""
import os

from . import core, fam_watch, family, models

FOCUS = ["", "", "fault"]


def init():
    fam_watch.warm()


def job(j):
    seed, focus = j
    return [(fam_watch.WatchRun(fam_watch.random_scenario(seed, focus), seed).run(), [])]


def run(report):
    num = 3500 if report.tier == "quick" else 60000
    base = core.SEED * 1000003 + int(report.prop[1:]) * 100000
    family.decide(report, "TWatch", [(base + k, FOCUS[k % len(FOCUS)]) for k in range(num)], job, init=init,
                  replay_of=replay_of, short=family.short, name="watch")
    models.watch(report)
    report.assume += [
        "processes, pidfds, epoll and waitpid are pretended; the threads are real and take turns bytecode by bytecode",
        "a process number is not used again between its theft by someone else and the library noticing",
    ]


def replay_of(j, _):
    return dict(family="watch", seed=j[0], focus=j[1])


def replay(rp):
    core.init_worker()
    init()
    return family.show("TWatch", job((rp["seed"], rp["focus"]))[0][0], family.short)
