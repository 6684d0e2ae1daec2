#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--jobs N] [--replay FILE]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import run  # noqa: E402

a = argparse.ArgumentParser()
a.add_argument("id")
a.add_argument("--tier", default="quick", choices=["quick", "thorough"])
a.add_argument("--jobs", type=int, default=8)
a.add_argument("--replay")
o = a.parse_args()
if o.tier == "thorough":
    run.DEADLINE = float(os.environ.get("VP_DEADLINE", "14400"))
    run.CASE_LIMIT = 3600.0
sys.exit(run.main(o.id, o.tier, o.jobs, o.replay))
