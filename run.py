"""Run one check: run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from mc import core  # noqa: E402

if __name__ == "__main__":
    try:
        code = core.main(sys.argv[1:])
    except core.HarnessError as e:
        print("HARNESS ERROR: %s" % (str(e)[:4000]), file=sys.stderr)
        code = 2
    sys.stdout.flush()
    sys.exit(code)
