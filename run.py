#!/opt/venv/bin/python
"""run.py C07 [quick|thorough] [--replay FILE] [--seed N] [--only SUB]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from rfcheck import env, harness  # noqa: E402

if __name__ == "__main__":
    prop = sys.argv[1].lower()
    try:
        rc = harness.main(f"rfcheck.checks.{prop}", sys.argv[2:])
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
