"""IO family: generate scenarios, run the real code, validate the traces."""
import random

from . import core, fam_io, gen_io, sim, models, tlc

FOCUS = {
    "C08": ["out", "", "out", "in"],
    "C09": ["err", "err", "", "pipe"],
    "C10": ["in", "in", "", "pipe"],
    "C11": ["out", "in", "pipe", "sub"],
    "C12": ["pipe", "pipe", "iter"],
    "C14": ["sub"],
    "C17": ["iter"],
}
NUM = {"quick": 3200, "thorough": 40000}
ALSO = {"C11": 1600, "C14": 1600}  # quick checks that have another part


def init():
    sim.install()


def job(j):
    seed, focus, nvar = j
    sc = gen_io.random_scenario(seed, focus)
    r = fam_io.IoRun(sc, rng=random.Random(seed))
    out = [(r.run(), [])]
    n = r.world.iteration
    rng = random.Random(seed * 13 + 5)
    for _ in range(nvar):
        inj = [rng.randint(1, n)]
        if rng.random() < 0.4:
            inj.append(rng.randint(inj[0], n + 5))
        r = fam_io.IoRun(sc, rng=random.Random(seed), inject=inj)
        out.append((r.run(), inj))
    return out


def run(report, prefixes=None):
    prop, tier = report.prop, report.tier
    prefixes = prefixes or (prop + ".",)
    foc = FOCUS[prop]
    num = NUM[tier]
    if tier == "quick":
        num = ALSO.get(prop, num)
    base = core.SEED * 1000003 + int(prop[1:]) * 100000
    jobs = [(base + k, foc[k % len(foc)], int(k % 4 == 0)) for k in range(num)]
    res = core.pmap(job, jobs, report, chunksize=8, init=init)
    seen, traces, labels, runs = set(), [], [], 0
    for j, out in zip(jobs, res):
        for tr, inj in out or ():
            runs += 1
            d = core.digest(tr)
            if d not in seen:
                seen.add(d)
                traces.append(tr)
                labels.append((j, inj))
    bad, gen, distinct = tlc.validate("TIO", traces)
    report.add_traces(len(traces), gen, distinct, runs)
    for t in (0, len(traces) // 2, len(traces) - 1):
        tr = traces[t]
        report.sample(dict(run=replay_of(*labels[t]), names=tr["cfg"]["names"], conn=tr["cfg"]["conn"],
                           events=[_short(e) for e in tr["ev"][:60]]))
    others = {}
    for t, i, cl in bad:
        mine = [c for c in cl if c.startswith(prefixes)]
        for c in cl:
            if c not in mine:
                others[c] = others.get(c, 0) + 1
        for c in mine:
            tr = traces[t]
            report.violations.append(core.Violation(
                c, replay_of(*labels[t]), f"event {i}: {_short(tr['ev'][i])} in a run of {tr['cfg']['names']}"))
    report.violations.sort(key=lambda v: len(repr(v.replay)))
    if others:
        report.extra.setdefault("clauses_of_other_properties", {}).update(others)
    report.extra["io_scenarios"] = dict(random=len(jobs), focuses=sorted(set(foc)))
    models.pump(report)
    report.assume += [
        "children move identifiable data through the real pipes and files; transfers are what the child side reads and writes",
    ]


def replay_of(j, inj):
    return dict(family="io", seed=j[0], focus=j[1], inject=inj)


def _short(e):
    e = dict(e)
    if isinstance(e.get("d"), list):
        e["d"] = "+".join(f"{g['s']}[{g['a']}:{g['b']}]" for g in e["d"]) or "nothing"
    return f"{e.pop('k')} " + " ".join(f"{k}={v}" for k, v in e.items())


def replay(rp):
    init()
    core.init_worker()
    sc = gen_io.random_scenario(rp["seed"], rp["focus"])
    r = fam_io.IoRun(sc, rng=random.Random(rp["seed"]), inject=rp["inject"])
    tr = r.run()
    bad, _, _ = tlc.validate("TIO", [tr])
    marks = {i: cl for _, i, cl in bad}
    print({k: v for k, v in sc.items() if k != "cfg"})
    for i, e in enumerate(tr["ev"]):
        print("  ", _short(e)[:300], marks.get(i, ""))
    return [c for cl in marks.values() for c in cl]
