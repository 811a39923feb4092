"""Prompt family."""
import random

from . import core, fam_prompt, family, models, sim


def init():
    sim.install()


def job(j):
    seed, nvar = j
    sc = fam_prompt.random_scenario(seed)
    r = fam_prompt.PromptRun(sc, random.Random(seed))
    out = [(r.run(), [])]
    n = r.world.iteration
    rng = random.Random(seed * 7 + 3)
    for _ in range(nvar):
        inj = [rng.randint(1, n)]
        if rng.random() < 0.3:
            inj.append(rng.randint(inj[-1], n + 3))
        out.append((fam_prompt.PromptRun(sc, random.Random(seed), inj).run(), inj))
    return out


def run(report):
    num, nvar = (3000, 1) if report.tier == "quick" else (40000, 2)
    base = core.SEED * 1000003 + int(report.prop[1:]) * 100000
    family.decide(report, "TPrompt", [(base + k, nvar) for k in range(num)], job, init=init,
                  replay_of=replay_of, short=family.short, name="prompt")
    models.prompt(report)
    report.assume.append("text is compared character by character; long runs of one filler character are kept as counts")


def replay_of(j, inj):
    return dict(family="prompt", seed=j[0], inject=inj)


def replay(rp):
    init()
    core.init_worker()
    sc = fam_prompt.random_scenario(rp["seed"])
    print(sc["scripts"]["c"], sc["body"], sc["shape"])
    r = fam_prompt.PromptRun(sc, random.Random(rp["seed"]), rp["inject"])
    return family.show("TPrompt", r.run(), family.short)
