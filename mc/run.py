"""Entry point:  python mc/run.py P01 [--tier quick|thorough] [--replay FILE] [--procs N] [--limit N]"""
import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--replay")
ap.add_argument("--procs", type=int)
ap.add_argument("--limit", type=int)
a = ap.parse_args()
from mc import core  # noqa: E402

sys.exit(core.main(importlib.import_module("mc." + a.prop.lower()), a.tier, a.replay, a.procs, a.limit))
