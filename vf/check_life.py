"""Life family: generate scenarios, run the real code, validate the traces."""
import ast
import random

from . import core, fam_life, gen_life, models, sim, tlc

# property -> (scenario focuses, clauses are those with this property's prefix)
FOCUS = {
    "C01": ["", "cancel", "fail", "timeout", "lag"],
    "C02": ["", "fail", "sub", "cancel", "fail"],
    "C03": ["", "cancel", "timeout", "body", "sub"],
    "C04": ["cancel", "timeout", "body", "grace", ""],
    "C05": ["cancel", "", "pipe", "sub", "body"],
    "C06": ["timeout", "grace", "cancel", "lag"],
    "C07": ["single", "", "pipe", "lag"],
    "C11": ["", "pipe", "sub", "single"],
    "C13": ["pipe", "pipe", "fail", "timeout"],
    "C14": ["sub", "sub", "fail"],
    "C18": ["", "fail", "cancel", "sub", "timeout"],
    "C27": ["fail", "fail", "pipe", "sub"],
}
POS = (0, 1, 2, 99)


def init():
    sim.install()


def _run(sc, seed, inject):
    r = fam_life.LifeRun(sc, rng=random.Random(seed), inject=inject)
    tr = r.run()
    return r, tr


def job_random(job):
    "(seed, focus, number of injected variants, max injections)"
    seed, focus, nvar = job
    sc = gen_life.random_scenario(seed, focus)
    rng = random.Random(seed * 31 + 7)
    r, tr = _run(sc, seed, [])
    out = [(tr, [])]
    n = r.world.iteration
    for _ in range(nvar):
        k = rng.randint(1, n)
        inj = [(k, rng.choice(POS))]
        while rng.random() < 0.35 and len(inj) < 5:
            inj.append((rng.randint(inj[-1][0], n + 10), rng.choice((0, 0, 1, 2, 99))))
        r, tr = _run(sc, seed, inj)
        out.append((tr, inj))
    return out


def job_curated(job):
    "(name, [chooser seed], injections list)"
    name, seed, injs = job
    sc = CURATED[name]
    return [(_run(sc, seed, inj)[1], inj) for inj in injs]


CURATED = gen_life.curated()


def probe(name):
    r, tr = _run(CURATED[name], 0, [])
    return r.world.iteration


def plan(prop, tier, rnd_base):
    "Jobs for one property: (fn name, job)."
    rng = random.Random(rnd_base)
    foc = FOCUS[prop]
    nr, nvar = (1500, 5) if tier == "quick" else (20000, 6)
    jobs = [("r", (rnd_base * 1000003 + int(prop[1:]) * 100000 + k, foc[k % len(foc)], nvar)) for k in range(nr)]
    return jobs


def curated_jobs(tier, iters, rng):
    jobs = []
    for name, n in iters.items():
        singles = [[(k, p)] for k in range(1, n + 2) for p in ((0, 1, 99) if tier == "quick" else (0, 1, 2, 3, 99))]
        if tier == "quick" and len(singles) > 90:
            singles = rng.sample(singles, 90)
        doubles = []
        for _ in range(30 if tier == "quick" else 400):
            k = rng.randint(1, n)
            doubles.append([(k, rng.choice(POS)), (rng.randint(k, n + 12), rng.choice(POS))])
        injs = [[]] + singles + doubles
        for i in range(0, len(injs), 30):
            jobs.append((name, 0, injs[i : i + 30]))
    return jobs


def _dispatch(j):
    kind, job = j
    return job_random(job) if kind == "r" else job_curated(job)


def replay_of(kind, job, inj):
    if kind == "r":
        return dict(family="life", seed=job[0], focus=job[1], inject=inj)
    return dict(family="life", curated=job[0], seed=job[1], inject=inj)


def run(report, prefixes=None):
    prop, tier = report.prop, report.tier
    prefixes = prefixes or (prop + ".",)
    rng = random.Random(core.SEED * 77 + int(prop[1:]))
    names = sorted(CURATED)
    iters = dict(zip(names, core.pmap(probe, names, report, chunksize=2, init=init)))
    iters = {k: v for k, v in iters.items() if v}
    jobs = [("c", j) for j in curated_jobs(tier, iters, rng)] + plan(prop, tier, core.SEED)
    res = core.pmap(_dispatch, jobs, report, chunksize=8, init=init)
    seen, traces, labels, runs = set(), [], [], 0
    for (kind, job), out in zip(jobs, res):
        for tr, inj in out or ():
            runs += 1
            d = core.digest(tr)
            if d in seen:
                continue
            seen.add(d)
            traces.append(tr)
            labels.append((kind, job, inj))
    bad, gen, distinct = tlc.validate("TLife", traces)
    report.add_traces(len(traces), gen, distinct, runs)
    models.run(report)
    for t in (0, len(traces) // 2, len(traces) - 1):
        tr = traces[t]
        report.sample(dict(run=replay_of(*labels[t]), form=tr["cfg"]["form"], names=tr["cfg"]["names"],
                           events=[_short(e) for e in tr["ev"]]))
    others = {}
    for t, i, cl in bad:
        mine = [c for c in cl if c.startswith(prefixes)]
        for c in cl:
            if c not in mine:
                others[c] = others.get(c, 0) + 1
        for c in mine:
            tr = traces[t]
            report.violations.append(core.Violation(
                c, replay_of(*labels[t]),
                f"event {i}: {_short(tr['ev'][i])} in {tr['cfg']['form']} run of {tr['cfg']['names']}"))
    report.violations.sort(key=lambda v: len(repr(v.replay)))
    if others:
        report.extra["clauses_of_other_properties"] = others
    report.extra["scenarios"] = dict(curated=len(iters), random=sum(k == "r" for k, _ in jobs))
    report.assume += [
        "child processes are puppets behind asyncio's transport; pipes, ptys, descriptors and the event loop are real",
        "time is virtual: it moves only when the event loop has nothing to do",
    ]


def _short(e):
    e = dict(e)
    return f"{e.pop('t')}ms {e.pop('k')} " + " ".join(f"{k}={v}" for k, v in e.items())


def replay(rp):
    "Run one recorded case again and print what the specification says."
    init()
    core.init_worker()
    sc = CURATED[rp["curated"]] if "curated" in rp else gen_life.random_scenario(rp["seed"], rp["focus"])
    r, tr = _run(sc, rp["seed"], [tuple(x) for x in rp["inject"]])
    bad, _, _ = tlc.validate("TLife", [tr])
    marks = {i: cl for _, i, cl in bad}
    print({k: v for k, v in sc.items() if k != "cfg"})
    for i, e in enumerate(tr["ev"]):
        print("  ", _short(e), marks.get(i, ""))
    return [c for cl in marks.values() for c in cl]
