"""Harvest family."""
import random

from . import core, fam_harvest, family, models, sim


def init():
    sim.install()


def job(j):
    seed, nvar = j
    sc = fam_harvest.random_scenario(seed)
    r = fam_harvest.HarvestRun(sc)
    out = [(r.run(), [])]
    n = r.world.iteration
    rng = random.Random(seed * 7 + 3)
    for _ in range(nvar):
        inj = [rng.randint(1, max(2, n - 2))]
        while rng.random() < 0.4:
            inj.append(rng.randint(inj[-1], n + 3))
        out.append((fam_harvest.HarvestRun(sc, inj).run(), inj))
    return out


def run(report):
    num, nvar = (4000, 4) if report.tier == "quick" else (60000, 8)
    base = core.SEED * 1000003
    family.decide(report, "THarvest", [(base + k, nvar) for k in range(num)], job, init=init,
                  replay_of=replay_of, short=family.short, name="harvest")
    models.harvest(report)
    report.assume.append("awaitables are scripted coroutines, tasks and awaitable objects; time is virtual")


def replay_of(j, inj):
    return dict(family="harvest", seed=j[0], inject=inj)


def replay(rp):
    init()
    core.init_worker()
    r = fam_harvest.HarvestRun(fam_harvest.random_scenario(rp["seed"]), rp["inject"])
    return family.show("THarvest", r.run(), family.short)
