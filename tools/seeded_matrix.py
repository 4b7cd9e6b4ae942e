"""Which checks report which planted bugs: seeded_matrix.py [--all] [bug ...]

Applies every patch of seeded/ to a scratch copy of /repo and runs the check of its
property (with --all: every check) against the copy.
"""

import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [f"C{i:02d}" for i in range(1, 35)]


def run(bug, everything, seed, tier):
    meta = json.load(open(f"{ROOT}/seeded/{bug}/meta.json"))
    scratch = tempfile.mkdtemp(prefix="seeded-")
    try:
        shutil.copytree("/repo", scratch + "/repo", symlinks=True)
        # evidence and replays of these runs stay out of the way
        shutil.copytree(ROOT, scratch + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
        p = subprocess.run(["git", "apply", f"{ROOT}/seeded/{bug}/patch.diff"], cwd=scratch + "/repo", capture_output=True, text=True)
        if p.returncode:
            return bug, meta["property"], None, [], p.stderr
        env = dict(os.environ, VMON_REPO=scratch + "/repo", VERIF_SEED=str(seed), VERIF_TIER=tier)
        hits, what = [], ""
        for prop in PROPS if everything else [meta["property"]]:
            r = subprocess.run([scratch + "/verif/check", prop, "--jobs", "4"], env=env, capture_output=True, text=True)
            if r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout:
                hits.append(prop)
                if prop == meta["property"]:
                    what = " ".join(r.stdout.split("VIOLATION", 1)[1].split("\n")[1:2])[:160]
            elif r.returncode:
                hits.append(f"{prop}:rc{r.returncode}")
        return bug, meta["property"], meta["property"] in hits, hits, what
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    args = sys.argv[1:]
    everything = "--all" in args
    names = [a for a in args if not a.startswith("-")] or sorted(os.listdir(ROOT + "/seeded"))
    seed, tier = os.environ.get("VERIF_SEED", "1"), os.environ.get("VERIF_TIER", "quick")
    with ThreadPoolExecutor(3) as pool:
        for bug, prop, own, hits, what in pool.map(lambda b: run(b, everything, seed, tier), names):
            print(f"{bug:32s} {prop} {'caught' if own else 'MISSED'}  {' '.join(hits)}  |{what}", flush=True)


if __name__ == "__main__":
    main()
