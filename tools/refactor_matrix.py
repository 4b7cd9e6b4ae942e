"""Edits that keep the behaviour, and what the checks say: refactor_matrix.py [--all] [name ...]

Applies every edit of refactorings.py to a scratch copy of /repo, runs the tests of the
repository there and the checks of the files it touches (with --all: every check).
Anything but "quiet" is a false alarm.
"""

import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

from refactorings import EDITS

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ALL = [f"C{i:02d}" for i in range(1, 35)]
PLOTS = ["C15", "C18", "C23", "C28", "C29", "C30", "C34"]
DISCRETE = ["C11", "C13", "C15", "C16", "C17", "C18", "C28", "C33"]
CHECKS = {
    "models.py": [c for c in ALL if c not in ("C11", "C12", "C13", "C14", "C15", "C18", "C19", "C25", "C27", "C28", "C29", "C30", "C34")],
    "distributions.py": [c for c in ALL if c > "C10" and c not in ("C16", "C17", "C21", "C24", "C29", "C30", "C32")] + ["C06"],
    "plot.py": PLOTS,
    "slice.py": ["C18", "C21", "C23", "C28", "C34"],
    "_beta_geometric.py": ["C07"] + DISCRETE,
    "_compound_gamma.py": ["C08"] + DISCRETE,
    "_random.py": ["C13", "C14", "C15", "C32"],
}


def run(name, edits, everything):
    scratch = tempfile.mkdtemp(prefix="refactor-")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", VMON_REPO=scratch + "/repo")
    try:
        shutil.copytree("/repo", scratch + "/repo", symlinks=True)
        shutil.copytree(ROOT, scratch + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
        for file, old, new in edits:
            path = f"{scratch}/repo/conjugate/{file}"
            text = open(path).read()
            if old not in text:
                return f"{name}: the text to edit is not there: {old[:60]!r}"
            open(path, "w").write(text.replace(old, new, 1))
        tests = [PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "--no-cov", "-x"]
        if subprocess.run(tests, cwd=scratch + "/repo", env=env, capture_output=True).returncode:
            return f"{name}: the tests fail: not a valid edit"
        alarms = []
        for prop in ALL if everything else sorted({c for file, _, _ in edits for c in CHECKS[file]}):
            r = subprocess.run([scratch + "/verif/check", prop, "--jobs", "4"], env=env, capture_output=True, text=True)
            if r.returncode:
                alarms.append(f"{prop} rc{r.returncode}: " + " ".join(x for x in r.stdout.split("\n") if "unit" in x)[:600])
        return f"{name}: " + ("quiet" if not alarms else "\n   ".join(alarms))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    args = sys.argv[1:]
    names = [a for a in args if not a.startswith("-")]
    with ThreadPoolExecutor(2) as pool:
        chosen = [e for e in EDITS if not names or e[0] in names]
        for line in pool.map(lambda e: run(*e, "--all" in args), chosen):
            print(line, flush=True)


if __name__ == "__main__":
    main()
