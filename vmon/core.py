"""Runner of the monitors.

A check is a set of *units*: workloads that drive the real code of conjugate and
hand what they observe (calls, results, exceptions, drawn lines, samples) to an
oracle. Every unit is repeated with its own random stream, derived from
VERIF_SEED, the property, the unit and the repetition, so that any repetition
can be replayed alone.

Verdicts: exit 0 when everything observed agreed with the property, exit 1 with a
VIOLATION line when an oracle rejected an observation, exit 2 when nothing can be
said (harness error, or a monitor that the workload never reached).
"""

import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings
import zlib
from collections import Counter

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_DISTINCT = 2_000_000
UNIT_TIMEOUT = 400


class Abort(Exception):
    """The rest of the repetition cannot be judged (its failure is recorded)."""


class Unit:
    def __init__(self, prop, name, func, quick, weight, thorough_only, once):
        self.prop, self.name, self.func = prop, name, func
        self.quick, self.weight = quick, weight
        self.thorough_only, self.once = thorough_only, once


REGISTRY: dict[str, dict[str, Unit]] = {}
RULES: dict[str, str] = {}
ASSUMPTIONS: dict[str, list] = {}


#: rounds of every unit in the quick tier, so that each check takes some 10 to 20 seconds
ROUNDS = {
    "C04": 50, "C05": 40, "C06": 60, "C09": 60, "C10": 40, "C12": 64, "C16": 24, "C19": 32,
    "C22": 64, "C24": 24, "C25": 40, "C26": 40, "C27": 30,
    "C11": 8, "C13": 4, "C14": 5, "C15": 8, "C17": 2, "C20": 10, "C21": 10, "C23": 5, "C28": 16,
    "C29": 12, "C30": 12, "C31": 8, "C32": 6, "C33": 14, "C34": 6,
}  # fmt: skip


def rounds_of(prop):
    return ROUNDS.get(prop, 20)


def unit(*props, quick=10, weight=1.0, thorough_only=False, once=False, name=None):
    """Register a workload with its oracle for properties.

    quick: repetitions of a round in the quick tier (they are the first of the thorough tier).
    once: the unit enumerates a fixed space and is not worth repeating.
    """

    def deco(func):
        for prop in props:
            n = name or func.__name__
            assert n not in REGISTRY.setdefault(prop, {}), (prop, n)
            REGISTRY[prop][n] = Unit(prop, n, func, quick, weight, thorough_only, once)
        return func

    return deco


def rule(prop, text, assumptions=()):
    RULES[prop] = text
    ASSUMPTIONS[prop] = list(assumptions)


def short(value, limit=400):
    try:
        text = repr(value)
    except Exception as e:  # a broken __repr__ must not hide a finding
        text = f"<unprintable {type(value).__name__}: {e}>"
    text = " ".join(text.split())
    return text if len(text) <= limit else text[:limit] + "..."


class Ctx:
    """What a repetition of a unit sees, and where its observations go."""

    def __init__(self, prop, unit, rep, seed, tier, known):
        import numpy as np

        self.prop, self.unit, self.rep, self.seed, self.tier = (
            prop,
            unit,
            rep,
            seed,
            tier,
        )
        self.known_keys = known
        self.rng = np.random.default_rng(
            [seed, zlib.crc32(prop.encode()), zlib.crc32(unit.encode()), rep]
        )
        self.evaluations = 0
        self.distinct = set()
        self.counters = Counter()
        self.samples = []
        self.violations = []
        self.known_seen = Counter()
        self._last = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    # observations ---------------------------------------------------------
    def case(self, *key, nontrivial=True, sample=None):
        """One generated case; `key` identifies it."""
        self.evaluations += 1
        if nontrivial:
            h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
            if len(self.distinct) < MAX_DISTINCT:
                self.distinct.add(h)
        if len(self.samples) < 3:
            self.samples.append(short(sample if sample is not None else key, 300))

    def event(self, name, k=1):
        self.counters[name] += int(k)

    def call(self, func, *args, **kwargs):
        """Call the code under test with valid input: it must not raise."""
        name = getattr(func, "__qualname__", getattr(func, "__name__", str(func)))
        self.counters["call " + name] += 1
        try:
            return func(*args, **kwargs)
        except (MemoryError, TimeoutError):
            raise
        except Exception as e:
            self.fail(
                f"{name} raised {type(e).__name__}: {short(str(e), 200)}",
                args=args,
                kwargs=kwargs,
                where=traceback.format_exc(limit=-3),
            )
            raise Abort from e

    # verdicts -------------------------------------------------------------
    def ok(self, cond, what, **info):
        self.counters["oracle decisions"] += 1
        if not cond:
            self.fail(what, **info)
        return bool(cond)

    def fail(self, what, **info):
        self.counters["rejected"] += 1
        if len(self.violations) < 5:
            self.violations.append(
                {"what": what, "info": {k: short(v, 1500) for k, v in info.items()}}
            )
        else:
            self.violations.append({"what": what})
            del self.violations[50:]

    def known(self, key, what, **info):
        """A deviation whose mechanism is a listed finding; otherwise a violation."""
        if key in self.known_keys:
            self.known_seen[key] += 1
        else:
            self.fail(what, **info)


def load_known(prop):
    """Listed findings of the property: {key: what fails}."""
    known = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                fields = line[len("finding:") :].split(None, 2)
                p, key, what = fields
                if p == f"property={prop}":
                    assert key.startswith("key="), line
                    known[key[4:]] = what
    return known


def _alarm(signum, frame):
    raise TimeoutError("repetition exceeded its time limit")


def run_rep(prop, name, rep, seed, tier, known):
    import numpy as np

    u = REGISTRY[prop][name]
    ctx = Ctx(prop, name, rep, seed, tier, known)
    error = None
    t0 = time.time()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(UNIT_TIMEOUT)
    try:
        np.random.seed(zlib.crc32(f"{prop}/{name}/{rep}/{seed}".encode()))
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            u.func(ctx)
    except Abort:
        pass
    except (MemoryError, TimeoutError, KeyboardInterrupt) as e:
        error = f"{type(e).__name__}: {e}"
    except Exception as e:
        # What the code under test returned could not be observed or judged: no
        # repetition raises when it returns what the property says.
        ctx.fail(
            f"observation failed: {type(e).__name__}: {short(str(e), 300)}",
            where=traceback.format_exc(limit=-6),
        )
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return {
        "unit": name,
        "rep": rep,
        "evaluations": ctx.evaluations,
        "distinct": ctx.distinct,
        "counters": ctx.counters,
        "samples": ctx.samples,
        "violations": ctx.violations,
        "known": ctx.known_seen,
        "error": error,
        "wall": time.time() - t0,
    }


def _work(task):
    prop, name, reps, seed, tier, known, deadline = task
    out = []
    for rep in reps:
        if deadline is not None and time.time() > deadline:
            break
        out.append(run_rep(prop, name, rep, seed, tier, known))
    return out


def load_checks(prop):
    pkg = os.path.join(ROOT, "vmon", "checks")
    for f in sorted(os.listdir(pkg)):
        if f.endswith(".py") and f != "__init__.py":
            src = open(os.path.join(pkg, f)).read()
            if prop is None or f'"{prop}"' in src:
                importlib.import_module(f"vmon.checks.{f[:-3]}")


def _write_replay(prop, name, rep, seed, tier, violation):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{name}-{seed}-{rep}.json")
    with open(path, "w") as f:
        json.dump(
            {
                "property": prop,
                "unit": name,
                "rep": rep,
                "seed": seed,
                "tier": tier,
                "violation": violation,
                "replay": f"./check {prop} --replay {path}",
            },
            f,
            indent=1,
        )
    return path


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--unit")
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--profile", action="store_true")
    args = ap.parse_args(argv)
    t0 = time.time()
    prop = args.prop
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"

    try:
        import conjugate
    except Exception:
        traceback.print_exc()
        print(f"INCONCLUSIVE property={prop}: conjugate cannot be imported")
        return 2
    repo = os.path.realpath(os.environ.get("VMON_REPO", "/repo"))
    assert os.path.realpath(conjugate.__file__).startswith(repo + os.sep), (
        conjugate.__file__
    )
    from vmon import probe

    known = load_known(prop)
    try:
        load_checks(prop)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        traceback.print_exc()
        print(f"INCONCLUSIVE property={prop}: checks cannot be loaded ({tb[-1]})")
        return 2
    units = REGISTRY.get(prop, {})
    if not units:
        print(f"INCONCLUSIVE property={prop}: no units")
        return 2

    if args.replay:
        r = json.load(open(args.replay))
        tasks = [
            (prop, r["unit"], [r["rep"]], r["seed"], r.get("tier", tier), known, None)
        ]
        seed = r["seed"]
    else:
        tasks = []
        budget = args.budget or float(os.environ.get("VERIF_BUDGET", "420"))
        deadline = t0 + budget if tier == "thorough" else None
        active = [
            u
            for u in units.values()
            if (tier == "thorough" or not u.thorough_only)
            and (args.unit is None or u.name == args.unit)
        ]
        for u in active:
            n = 1 if u.once else u.quick * rounds_of(prop)
            # a task per few repetitions, so that they spread over the processes
            size = max(1, min(n, int(-(-n // (2 * args.jobs)))))
            for i in range(0, n, size):
                tasks.append(
                    (
                        prop,
                        u.name,
                        list(range(i, min(n, i + size))),
                        seed,
                        tier,
                        known,
                        None,
                    )
                )
        tasks.sort(key=lambda t: -REGISTRY[prop][t[1]].weight * len(t[2]))
        if tier == "thorough":
            rounds = 0
            # further rounds with fresh repetitions until the budget is used
            for rounds in range(1, 400):
                for u in active:
                    if u.once:
                        continue
                    n = u.quick * rounds_of(prop)
                    size = max(1, min(n, int(-(-n // args.jobs))))
                    for i in range(0, n, size):
                        tasks.append(
                            (
                                prop,
                                u.name,
                                [
                                    rounds * n + j
                                    for j in range(i, min(n, i + size))
                                ],
                                seed,
                                tier,
                                known,
                                deadline,
                            )
                        )

    probe.preload()
    results = []
    if args.jobs <= 1 or args.replay or len(tasks) == 1:
        for t in tasks:
            results.extend(_work(t))
    else:
        with mp.get_context("fork").Pool(args.jobs) as pool:
            for out in pool.imap_unordered(_work, tasks, chunksize=1):
                results.extend(out)
                if sum(len(r["violations"]) > 0 for r in results) > 200:
                    pool.terminate()
                    break

    evaluations = sum(r["evaluations"] for r in results)
    distinct = set().union(*[r["distinct"] for r in results]) if results else set()
    counters = Counter()
    per_unit = Counter()
    known_seen = Counter()
    for r in results:
        counters.update(r["counters"])
        per_unit[r["unit"]] += r["evaluations"]
        known_seen.update(r["known"])
    samples = []
    for name in units:
        for r in results:
            if r["unit"] == name and r["samples"]:
                samples.extend(f"{name}: {s}" for s in r["samples"][:2])
                break
    errors = [r for r in results if r["error"]]
    bad = sorted(
        (r for r in results if r["violations"]), key=lambda r: (r["unit"], r["rep"])
    )
    wall = time.time() - t0
    calls = {
        k[5:]: v for k, v in sorted(counters.items()) if k.startswith("call ")
    }
    others = {k: v for k, v in sorted(counters.items()) if not k.startswith("call ")}
    n_viol = sum(len(r["violations"]) for r in bad)
    if not args.replay:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        evidence = {
            "property": prop,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": len(distinct),
                "rule": RULES.get(prop, ""),
                "samples": samples[:40] or ["none"],
                "cases_per_workload": dict(sorted(per_unit.items())),
                "repetitions": len(results),
                "observed_calls": calls,
                "observed_events": others,
                "known_findings_observed": dict(known_seen),
            },
            "assumptions": ASSUMPTIONS.get(prop, []),
            "wall_s": round(wall, 3),
            "violations": n_viol,
        }
        with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")

    if args.profile:
        walls = Counter()
        for r in results:
            walls[r["unit"]] += r["wall"]
        for k, v in walls.most_common():
            print(f"  {v:8.2f}s {k}")
    print(
        f"{prop} {tier} seed={seed}: {len(results)} repetitions, {evaluations} cases "
        f"({len(distinct)} distinct), {counters['oracle decisions']} oracle decisions, "
        f"{wall:.1f}s"
    )
    for key, count in sorted(known_seen.items()):
        print(f"KNOWN-FINDING: property={prop} {known[key]} (seen {count} times)")
    if bad:
        seen = set()
        for r in bad:
            v = r["violations"][0]
            sig = (r["unit"], v["what"][:80])
            if sig in seen:
                continue
            seen.add(sig)
            if len(seen) > 8:
                break
            path = _write_replay(prop, r["unit"], r["rep"], seed, tier, v)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  unit {r['unit']} rep {r['rep']}: {v['what']}")
            for k, val in v.get("info", {}).items():
                print(f"    {k}: {val}")
        return 1
    if errors:
        for r in errors[:5]:
            print(f"INCONCLUSIVE property={prop} unit {r['unit']}: {r['error']}")
        return 2
    if args.replay:
        print("replay: no violation")
        return 0
    idle = [u for u in (u.name for u in active) if per_unit[u] == 0]
    if idle or counters["oracle decisions"] == 0:
        print(f"INCONCLUSIVE property={prop}: monitors never reached in {idle}")
        return 2
    return 0
