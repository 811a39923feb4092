"""Diagnostics family: the scenarios of the other families, each run with the
library's tracing off and again with it on, under the same schedule."""
import asyncio.base_events
import json
import logging
import os

from . import check_harvest, check_io, check_life, check_nest, check_prompt, check_values, core, family, sim

# what is switched on: SHELLOUS_TRACE, level of the library's logger
SETTINGS = {"plain": ("", None), "all": ("all", "DEBUG"), "debug": ("", "DEBUG"), "detail": ("detail", "INFO"),
            "prompt": ("prompt", "INFO"), "quiet": ("all", None)}
QUICK = ["all", "debug"]
THOROUGH = ["all", "debug", "detail", "prompt", "quiet"]


class Null:
    "A log goes somewhere, formatted, without touching a descriptor."
    n = 0

    def write(self, s):
        Null.n += len(s)

    def flush(self):
        pass


def finalize(loop, agen):
    """A dropped async generator is closed at once when it has nothing to wait for:
    the turns of the event loop that this takes otherwise are no part of a schedule."""
    loop._asyncgens.discard(agen)
    if loop.is_closed():
        return
    it = agen.aclose().__await__()
    try:
        it.send(None)
    except (StopIteration, RuntimeError):
        return
    loop.call_exception_handler(dict(message="generator waits while it is closed"))


def start(setting):
    "In a fresh process that has not imported the library."
    asyncio.base_events.BaseEventLoop._asyncgen_finalizer_hook = finalize
    trace, level = SETTINGS[setting]
    if trace:
        os.environ["SHELLOUS_TRACE"] = trace
    else:
        os.environ.pop("SHELLOUS_TRACE", None)
    sim.install()
    import shellous.log

    os.environ.pop("SHELLOUS_TRACE", None)
    if level:
        logging.disable(logging.NOTSET)
        logging.raiseExceptions = False
        lg = shellous.log.LOGGER
        lg.setLevel(level)
        lg.propagate = False
        lg.handlers[:] = []
        h = logging.StreamHandler(Null())
        h.setFormatter(logging.Formatter("%(asctime)s %(levelname)s %(message)s"))
        lg.addHandler(h)


def _plain():
    start("plain")


def _all():
    start("all")


def _debug():
    start("debug")


def _detail():
    start("detail")


def _prompt():
    start("prompt")


def _quiet():
    start("quiet")


START = {"plain": _plain, "all": _all, "debug": _debug, "detail": _detail, "prompt": _prompt, "quiet": _quiet}


def make(fam, seed, nvar):
    if fam == "life":
        foc = ["", "fail", "cancel", "sub", "timeout", "pipe", "single", "grace"]
        return check_life.job_random((seed, foc[seed % len(foc)], nvar))
    if fam == "cur":
        name = sorted(check_life.CURATED)[seed % len(check_life.CURATED)]
        return check_life.job_curated((name, 0, [[]] + [[(3 + 5 * k + seed // 64, 0)] for k in range(3 * nvar)]))
    if fam == "io":
        foc = ["out", "err", "in", "pipe", "sub", "iter", ""]
        return check_io.job((seed, foc[seed % len(foc)], nvar))
    if fam == "prompt":
        return check_prompt.job((seed, nvar))
    if fam == "harvest":
        return check_harvest.job((seed, nvar))
    if fam == "values":
        foc = ["set", "args", "env", "redir"]
        return check_values.job((seed, foc[seed % len(foc)]))
    return check_nest.job((seed, ["", "cancel"][seed % 2]))


def job(j):
    "The observations of one job, as strings."
    return [[json.dumps(e, sort_keys=True, default=repr) for e in tr["ev"]] for tr, _ in make(*j)]


def pair(a, b):
    "One trace of the pair."
    n = min(len(a), len(b))
    ev = [dict(k="both", a=x, b=y) for x, y in zip(a, b)]
    # equal stretches are long: one step stands for ten equal ones
    out, k = [], 0
    while k < len(ev):
        chunk = ev[k:k + 10]
        if len(chunk) == 10 and all(e["a"] == e["b"] for e in chunk):
            out.append(dict(k="both", a="|".join(e["a"] for e in chunk), b="|".join(e["b"] for e in chunk)))
            k += 10
        else:
            out.append(ev[k])
            k += 1
    out += [dict(k="plain_only", a=x, b="") for x in a[n:n + 3]]
    out += [dict(k="traced_only", a="", b=x) for x in b[n:n + 3]]
    out.append(dict(k="end", a=str(len(a)), b=str(len(b))))
    return out


def jobs_for(tier):
    num = dict(life=260, cur=130, io=260, prompt=240, harvest=240, values=200, nest=160)
    mul, nvar = (1, 1) if tier == "quick" else (14, 2)
    base = core.SEED * 1000003 + 2800000
    return [(fam, base + k, nvar) for fam, n in num.items() for k in range(n * mul)]


def run(report):
    jobs = jobs_for(report.tier)
    settings = QUICK if report.tier == "quick" else THOROUGH
    plain = core.pmap(job, jobs, report, chunksize=8, init=START["plain"])
    labels, traces = [], []
    for st in settings:
        other = core.pmap(job, jobs, report, chunksize=8, init=START[st])
        for j, a, b in zip(jobs, plain, other):
            for v, (x, y) in enumerate(zip(a or (), b or ())):
                traces.append({"cfg": {"setting": st, "fam": j[0]}, "ev": pair(x, y)})
                labels.append((j, v, st))
    bad = family_validate(report, traces)
    report.runs += len(traces)
    for t in (0, len(traces) // 2):
        report.sample(dict(pair=replay_of(*labels[t]), steps=len(traces[t]["ev"]),
                           first=[e["a"][:300] for e in traces[t]["ev"][:6]]))
    unsure = 0
    for t, i, cl in bad:
        j, v, st = labels[t]
        if not steady(j, v, st):
            unsure += 1
            continue
        e = traces[t]["ev"][i]
        for c in cl:
            report.violations.append(core.Violation(
                c, replay_of(j, v, st), f"off: {e['a'][-220:]} / {st}: {e['b'][-220:]}"))
        if len(report.violations) > 40:
            break
    report.violations.sort(key=lambda x: len(repr(x.replay)))
    report.extra["jobs"] = {f: sum(j[0] == f for j in jobs) for f in sorted({j[0] for j in jobs})}
    report.extra["settings"] = settings
    report.extra["schedules_not_repeatable"] = unsure
    report.assume.append("a schedule is what the deterministic world chooses by seed and event-loop iteration")


def family_validate(report, traces):
    from . import tlc

    bad, gen, distinct = tlc.validate("TSame", traces)
    report.add_traces(len(traces), gen, distinct, len(traces))
    return bad


def alone(j, st):
    return core.pmap(job, [j], None, init=START[st], nproc=1)[0]


def steady(j, v, st):
    "The difference is the setting's: each setting by itself gives the same run again."
    a, b = [alone(j, "plain") for _ in range(2)], [alone(j, st) for _ in range(2)]
    if any(x is None for x in a + b):
        return False
    return a[0][v] == a[1][v] and b[0][v] == b[1][v] and a[0][v] != b[0][v]


def replay_of(j, v, st):
    return dict(family="trace", job=list(j), variant=v, setting=st)


def replay(rp):
    j = tuple(rp["job"])
    a, b = alone(j, "plain")[rp["variant"]], alone(j, rp["setting"])[rp["variant"]]
    n = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    for x in a[:n]:
        print("  ", x[:200])
    print("off:", a[n:n + 3], "\non: ", b[n:n + 3])
    tr = {"cfg": {"setting": rp["setting"], "fam": j[0]}, "ev": pair(a, b)}
    return family.show("TSame", tr, lambda e: e["k"])
