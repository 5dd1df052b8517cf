#!/usr/bin/env python3
"""python3 check.py <property> [--tier quick|thorough] [--seed N]"""
import argparse, os, sys, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(ROOT, "lib"), os.path.join(ROOT, "checks")]
import vf
from registry import CHECKS
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    c = vf.Check(a.prop, a.tier, a.seed)
    err = None
    try:
        CHECKS[a.prop](c)
    except vf.HarnessError as e:
        err = str(e)
    except Exception:
        err = traceback.format_exc()
    sys.exit(c.finish(err))
main()
