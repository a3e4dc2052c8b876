#!/opt/venv/bin/python
"""Runs the check of one property:  check.py C01 [--tier quick|thorough]

--replay FILE re-runs the recorded input of a violation on the current code.
"""

import argparse
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
sys.dont_write_bytecode = True

from vf import core  # noqa: E402
from vf.checks import CHECKS, load_all  # noqa: E402


def main():
    load_all()
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = a.seed if a.seed is not None else core.seed()
    ck = core.Check(a.prop, core.tier(a.tier), seed)
    try:
        if a.replay:
            rp = json.load(open(a.replay))
            ck.conform(rp["driver"], rp["module"], [rp["input"]], rp["consts"],
                       extra_env=rp["extra_env"], nproc=1)
        else:
            CHECKS[a.prop](ck)
        rc = ck.finish()
    except core.Machinery as e:
        print(f"CHECK ERROR {a.prop}: {e}", file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ck.close()
    sys.exit(rc)


main()
