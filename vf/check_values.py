"""Values family."""
from . import core, fam_values, family, models, sim

FOCUS = {"C20": ["set", "", "env"], "C21": ["args"], "C22": ["env"], "C26": ["redir"]}


def init():
    sim.install()


def job(j):
    seed, focus = j
    return [(fam_values.ValRun(seed, focus).run(), [])]


def run(report):
    num = 1800 if report.tier == "quick" else 40000
    base = core.SEED * 1000003 + int(report.prop[1:]) * 100000
    foc = FOCUS[report.prop]
    family.decide(report, "TValues", [(base + k, foc[k % len(foc)]) for k in range(num)], job, init=init,
                  replay_of=replay_of, short=family.short, name="values")
    models.values(report)
    report.assume.append("programs are puppets observed where the event loop starts a process")


def replay_of(j, _):
    return dict(family="values", seed=j[0], focus=j[1])


def replay(rp):
    init()
    core.init_worker()
    tr = fam_values.ValRun(rp["seed"], rp["focus"]).run()
    return family.show("TValues", tr, family.short)
