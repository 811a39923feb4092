#!/usr/bin/env -S python3 -B
"""check.py <property> [--tier quick|thorough] [--replay file]

Decides one property of shellous with the TLA+ specifications in spec/."""
import argparse
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
VENV = "/opt/venv/bin/python"
if not sys.executable.startswith("/opt/venv") and os.path.exists(VENV):
    os.execv(VENV, [VENV, "-B", os.path.abspath(__file__), *sys.argv[1:]])

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core, tlc  # noqa: E402

sys.path.insert(0, core.REPO)

# property -> checks that together decide it
PARTS = {
    "C01": ["check_life"], "C02": ["check_life"], "C03": ["check_life"], "C04": ["check_life"],
    "C05": ["check_life"], "C06": ["check_life"], "C07": ["check_life"], "C08": ["check_io"],
    "C09": ["check_io"], "C10": ["check_io"], "C11": ["check_life", "check_io"], "C12": ["check_io"],
    "C13": ["check_life"], "C14": ["check_life", "check_io"], "C15": ["check_prompt"], "C16": ["check_prompt"], "C17": ["check_io"],
    "C18": ["check_life"], "C19": ["check_harvest"], "C20": ["check_values"], "C21": ["check_values"],
    "C22": ["check_values"], "C23": ["check_nest"], "C24": ["check_watch"], "C25": ["check_pty"], "C26": ["check_values", "check_pty"], "C27": ["check_life"], "C28": ["check_trace"],
}
LEVEL = "model_checking"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)["replay"]
        mod = importlib.import_module("vf.check_" + rp["family"])
        bad = mod.replay(rp)
        print("broken:", sorted(set(bad)))
        return 1 if bad else 0
    report = core.Report(a.property, a.tier)
    tlc.PROP = report.prop
    for part in PARTS[a.property]:
        importlib.import_module("vf." + part).run(report)
    return core.finish(report, LEVEL)


if __name__ == "__main__":
    sys.exit(main())
