"""Setup: every module of the monitors loads against /repo's working tree."""

import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.environ.get("VMON_REPO", "/repo")]
from vmon import core  # noqa: E402

core.load_checks(None)
print({p: len(u) for p, u in sorted(core.REGISTRY.items())})
