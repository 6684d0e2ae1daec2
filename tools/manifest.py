#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules which exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "hist": "explicit-state exploration of all operation histories up to a depth, real code in lock-step with a reference model",
    "enum": "exhaustive enumeration of a bounded input/configuration space, every execution of the real code compared with a reference model",
    "sched": "stateless exploration of the compiled code under a simulated thread team: all accesses recorded, conflict-free regions have one Mazurkiewicz trace, so one execution decides all interleavings; team sizes and orders enumerated",
    "mpi": "execution of the real code under a simulated communicator for all process counts and problem sizes of the bound, collective-operation automaton checked on every rank",
}
KIND = {"C01": "hist", "C02": "hist", "C03": "hist", "C05": "hist", "C08": "hist", "C14": "mpi", "C24": "hist", "C23": "sched"}
NOTE = ("Exhaustive within the stated bounds (see evidence and DESIGN.md): every enumerated behaviour is executed on the code "
        "built from /repo's working tree and compared state by state with an independent reference model; nothing is claimed "
        "beyond the bounds. Trusts numpy/LAPACK and the reference model in /verif.")
ids = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick",
                           thorough_cmd=f"python3 check.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique="model checking: " + TECH[KIND.get(i, "enum")],
                           level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="python3 lib/build.py", checks=checks, not_applicable=na,
               notes="No hooks are needed in /repo: the checks copy the package, build its extensions and drive its public interface."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
