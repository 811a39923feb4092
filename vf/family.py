"""What the families have in common: jobs are run, traces validated, verdicts collected."""
from . import core, tlc


def decide(report, module, jobs, fn, *, init, replay_of, short, prefixes=None, name, shown=60):
    """fn(job) returns [(trace, variant), ...]; every trace is checked against `module`."""
    prefixes = prefixes or (report.prop + ".",)
    res = core.pmap(fn, jobs, report, chunksize=8, init=init)
    seen, traces, labels, runs = set(), [], [], 0
    for j, out in zip(jobs, res):
        for tr, var in out or ():
            runs += 1
            d = core.digest(tr)
            if d not in seen:
                seen.add(d)
                traces.append(tr)
                labels.append((j, var))
    bad, gen, distinct = tlc.validate(module, traces)
    report.add_traces(len(traces), gen, distinct, runs)
    for t in (0, len(traces) // 2, len(traces) - 1):
        tr = traces[t]
        report.sample(dict(run=replay_of(*labels[t]), cfg=repr(tr["cfg"])[:600],
                           events=[short(e)[:300] for e in tr["ev"][:shown]]))
    others = report.extra.setdefault("clauses_of_other_properties", {})
    for t, i, cl in bad:
        mine = [c for c in cl if c.startswith(prefixes)]
        for c in cl:
            if c not in mine:
                others[c] = others.get(c, 0) + 1
        for c in mine:
            report.violations.append(core.Violation(
                c, replay_of(*labels[t]), f"event {i}: {short(traces[t]['ev'][i])}"[:500]))
    report.violations.sort(key=lambda v: len(repr(v.replay)))
    report.extra.setdefault("jobs", {})[name] = len(jobs)


def show(module, tr, short):
    "Validate one trace and print it."
    bad, _, _ = tlc.validate(module, [tr])
    marks = {i: cl for _, i, cl in bad}
    print("  ", tr["cfg"])
    for i, e in enumerate(tr["ev"]):
        print("  ", short(e)[:300], marks.get(i, ""))
    return [c for cl in marks.values() for c in cl]


def short(e):
    e = dict(e)
    t = e.pop("t", None)
    return (f"{t}ms " if t is not None else "") + f"{e.pop('k')} " + " ".join(f"{k}={v}" for k, v in e.items())
