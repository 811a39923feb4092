"""Shared by all checks: running jobs, reporting, evidence, known findings."""
import hashlib
import json
import os
import sys
import time
import traceback
from multiprocessing import get_context

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
OUT = os.path.join(HERE, "out")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = 8


class Violation:
    "clause: spec clause broken; replay: JSON-able description that reproduces it."

    def __init__(self, clause, replay, detail="", key=None):
        self.clause = clause
        self.replay = replay
        self.detail = detail
        self.key = key or clause


class Report:
    "What one check covered and found."

    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.violations = []
        self.errors = []
        self.models = []  # design models: dict(name, states, transitions, ok)
        self.trace_states = 0
        self.trace_trans = 0
        self.traces = 0
        self.runs = 0
        self.samples = []
        self.extra = {}
        self.assume = []

    def add_model(self, name, states, transitions, what):
        self.models.append(dict(model=name, states=states, transitions=transitions, checks=what))

    def add_traces(self, n, gen, distinct, runs=None):
        self.traces += n
        self.trace_states += distinct
        self.trace_trans += gen
        self.runs += runs if runs is not None else n

    def sample(self, x):
        if len(self.samples) < 3:
            self.samples.append(x)


def init_worker():
    import logging
    import warnings

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def _guard(args):
    fn, job = args
    try:
        return fn(job)
    except BaseException:
        return ("ERR", repr(job)[:400], traceback.format_exc()[-3000:])


def pmap(fn, jobs, report=None, chunksize=4, init=None, nproc=NPROC):
    "Map in forked workers. A job that raises is a machinery error."
    ctx = get_context("fork")
    out = []

    def setup():
        init_worker()
        if init is not None:
            init()

    with ctx.Pool(nproc, initializer=setup) as p:
        for r in p.imap(_guard, [(fn, j) for j in jobs], chunksize=chunksize):
            if isinstance(r, tuple) and len(r) == 3 and isinstance(r[0], str) and r[0] == "ERR":
                if report is not None:
                    report.errors.append(r[1] + "\n" + r[2])
                out.append(None)
            else:
                out.append(r)
    return out


def canon(x):
    return json.dumps(x, sort_keys=True)


def digest(x):
    return hashlib.blake2b(canon(x).encode(), digest_size=12).digest()


def known_findings():
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f).get("findings", [])


def write_replay(v, prop):
    os.makedirs(OUT, exist_ok=True)
    name = f"{prop}-{hashlib.md5((v.clause + repr(v.replay)).encode()).hexdigest()[:10]}.json"
    path = os.path.join(OUT, name)
    with open(path, "w") as f:
        json.dump(dict(property=prop, clause=v.clause, detail=v.detail, replay=v.replay), f, indent=1, default=repr)
    return path


def finish(report, level):
    "Write the evidence, print the verdict, return the exit code."
    prop = report.prop
    known = [k for k in known_findings() if k.get("property") == prop and k.get("kind") == "known"]
    fresh, seen_known = [], set()
    for v in report.violations:
        k = next((k for k in known if k.get("key") == v.key), None)
        if k is not None:
            seen_known.add(k["key"])
        else:
            fresh.append(v)
    for k in known:
        if k["key"] in seen_known:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    ms = sum(m["states"] for m in report.models)
    mt = sum(m["transitions"] for m in report.models)
    cov = dict(
        states=ms + report.trace_states,
        transitions=mt + report.trace_trans,
        traces_validated_against_impl=report.traces,
        design_models=report.models,
        trace_spec_states=report.trace_states,
        runs_of_the_implementation=report.runs,
        samples=report.samples or ["(none)"],
    )
    cov.update(report.extra)
    ev = dict(property=prop, tier=report.tier, seed=SEED, level=level, coverage=cov,
              assumptions=report.assume, wall_s=round(time.time() - report.t0, 2), violations=len(fresh))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    if fresh:
        shown = set()
        for v in fresh:
            if v.clause in shown:
                continue
            shown.add(v.clause)
            path = write_replay(v, prop)
            print(f"# {v.clause}: {v.detail}"[:600])
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if report.errors:
        print("ERROR: machinery failed, no verdict")
        for e in report.errors[:3]:
            print(e)
        return 2
    print(f"ok property={prop} tier={report.tier} traces={report.traces} runs={report.runs} "
          f"states={cov['states']} wall={ev['wall_s']}s")
    return 0
