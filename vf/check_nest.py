"""Nested uses family."""
from . import core, fam_nest, family, models, sim

FOCUS = {"C23": ["", "", "cancel"]}


def init():
    sim.install()


def job(j):
    seed, focus = j
    return [(fam_nest.NestRun(seed, focus).run(), [])]


def run(report):
    num = 4500 if report.tier == "quick" else 60000
    base = core.SEED * 1000003 + int(report.prop[1:]) * 100000
    foc = FOCUS[report.prop]
    family.decide(report, "TNest", [(base + k, foc[k % len(foc)]) for k in range(num)], job, init=init,
                  replay_of=replay_of, short=family.short, name="nest")
    models.nest(report)
    report.assume.append("programs are puppets observed where the event loop starts a process")


def replay_of(j, _):
    return dict(family="nest", seed=j[0], focus=j[1])


def replay(rp):
    init()
    core.init_worker()
    tr = fam_nest.NestRun(rp["seed"], rp["focus"]).run()
    return family.show("TNest", tr, family.short)
