"""Entry point: python run.py C01 [--replay FILE]."""

import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VMON_REPO", "/repo")
sys.path[:0] = [os.path.dirname(HERE), REPO]
sys.dont_write_bytecode = True

from vmon import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))
