"""Monitors of concurrent use (property "C17")."""

import hashlib
import os
import sys
import threading
import time

import numpy as np

import conjugate

from vmon import session
from vmon.core import Abort, rule, unit

rule(
    "C17",
    "Sessions of about a hundred operations on shared objects, run by 2 to 12 threads in "
    "random orders with thread switches forced between the instructions of conjugate; every "
    "result is compared bit by bit with the serial one; a case is one session; distinct by the "
    "observed order of completions.",
    ["CPython with its global interpreter lock"],
)
HOME = os.path.dirname(os.path.abspath(conjugate.__file__)) + os.sep


class Disturber:
    """Trace function that gives way to other threads inside conjugate's code."""

    def __init__(self, seed, chance, opcodes):
        self.rng = np.random.default_rng(seed)
        self.dice = self.rng.random(4096).tolist()
        self.chance, self.opcodes = chance, opcodes
        self.i = 0
        self.yields = 0
        self.sites = set()

    def __call__(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(HOME):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        self.i = (self.i + 1) % 4096
        if self.dice[self.i] < self.chance:
            self.yields += 1
            self.sites.add((frame.f_code.co_name, frame.f_lineno))
            time.sleep(0 if self.dice[-self.i] < 0.8 else 2e-5)
        return self


def serial(ctx, ops):
    out = []
    for op in ops:
        out.append(session.encode(ctx.call(op.run)))
    return out


@unit("C17", quick=64, weight=3)
def sessions(ctx):
    rng = ctx.rng
    ops = session.build(rng, stories=9 if not ctx.thorough else 18)
    before = [session.encode(op.inputs) for op in ops]
    alone = serial(ctx, ops)
    threads = int(rng.integers(2, 13))
    mode = ["plain", "lines", "opcodes"][ctx.rep % 3]
    disturber = None
    if mode != "plain":
        disturber = Disturber(int(rng.integers(2**31)), 0.3 if mode == "lines" else 0.05, mode == "opcodes")
    # all threads meet over few operations, or wander over all of them
    same = bool(rng.integers(2))
    names = rng.permutation(sorted({op.name for op in ops}))[:3]
    few = [i for i, op in enumerate(ops) if op.name in names]
    plans = []
    for _ in range(threads):
        if same:
            plans.append([int(i) for _ in range(-(-40 // len(few))) for i in rng.permutation(few)])
        else:
            plans.append([int(i) for i in rng.permutation(len(ops))[: 240 // threads + 12]])
    barrier = threading.Barrier(threads)
    log, wrong = [], []

    def work(t):
        barrier.wait()
        if disturber:
            sys.settrace(disturber)
        try:
            for i in plans[t]:
                try:
                    got = session.encode(ops[i].run())
                except Exception as e:
                    wrong.append((ops[i].name, f"{type(e).__name__}: {e}"))
                    continue
                log.append((t, i))
                if got != alone[i]:
                    wrong.append((ops[i].name, "another result than alone"))
        finally:
            sys.settrace(None)

    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6 if rng.integers(2) else 1e-4)
    state = np.random.get_state()[1].tobytes()
    try:
        pool = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(threads)]
        for t in pool:
            t.start()
        for t in pool:
            t.join()
    finally:
        sys.setswitchinterval(interval)
    order = hashlib.blake2b(repr(log).encode(), digest_size=8).hexdigest()
    ctx.case(mode, threads, order, sample=(mode, threads, sorted({op.name for op in ops})[:12]))
    ctx.event("threads", threads)
    ctx.event("concurrent operations " + mode, len(log))
    ctx.event("switches between operations", sum(a[0] != b[0] for a, b in zip(log, log[1:])))
    if disturber:
        ctx.event("forced yields inside conjugate", disturber.yields)
        ctx.event("sites of forced yields", len(disturber.sites))
    ctx.ok(
        not wrong, f"with {threads} threads: {wrong[:1]}", mode=mode, wrong=sorted(set(wrong))[:20],
    )
    ctx.ok(
        np.random.get_state()[1].tobytes() == state,
        "seeded calls of threads changed numpy's global random state",
    )
    for op, image in zip(ops, before):
        ctx.ok(session.encode(op.inputs) == image, f"{op.name}: shared arguments changed", inputs=op.inputs)
    again = serial(ctx, ops)
    for op, a, b in zip(ops, alone, again):
        ctx.ok(a == b, f"{op.name}: another result after the threads than before")


class Interloper:
    """A second thread that runs one operation while the first one stands still."""

    def __init__(self):
        self.todo, self.done = threading.Semaphore(0), threading.Semaphore(0)
        self.op, self.result = None, None
        self.late = 0
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            self.todo.acquire()
            if self.op is None:
                return
            self.result = attempt(self.op)
            self.done.release()

    def start(self, op, wait):
        """False: the operation waits for something the first thread holds."""
        self.op = op
        self.todo.release()
        if self.done.acquire(timeout=wait):
            return True
        self.late += 1
        return False

    def stop(self):
        self.op = None
        self.todo.release()


def attempt(op):
    try:
        return session.encode(op.run())
    except Exception as e:
        return f"{type(e).__name__}: {e}"


class Stop:
    """Trace function: before instruction number `at` of conjugate, act()."""

    def __init__(self, at=None, act=None):
        self.at, self.act, self.seen, self.site = at, act, 0, None

    def __call__(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(HOME):
            return None
        frame.f_trace_opcodes = True
        if event in ("opcode", "return"):
            self.seen += 1
            if self.seen == self.at:
                self.site = (frame.f_code.co_name, frame.f_lineno)
                self.act()
        return self

    def run(self, op):
        sys.settrace(self)
        try:
            return attempt(op)
        finally:
            sys.settrace(None)


def interrupted(ctx, interloper, a, b, at):
    """a, with b run by another thread before instruction `at` of a."""
    state = {}

    def act():
        state["on time"] = interloper.start(b, 0.5 if interloper.late < 3 else 0.02)

    stop = Stop(at, act)
    got = stop.run(a)
    if not state:
        return got, None, None
    if not state["on time"]:
        interloper.done.acquire()
    return got, interloper.result, stop.site


def pairs(rng, ops):
    """Operations that may share something: a function, or an object."""
    groups = {}
    for op in ops:
        groups.setdefault(op.name.removesuffix(" again"), []).append(op)
        for v in op.inputs:
            if hasattr(v, "__dataclass_fields__"):
                groups.setdefault(id(v), []).append(op)
    out = []
    for group in groups.values():
        if len(group) < 2:
            group = [group[0], ops[rng.integers(len(ops))]]
        i, j = rng.permutation(len(group))[:2]
        out.append((group[i], group[j]))
    return out


@unit("C17", quick=32, weight=2)
def preemptions(ctx):
    """One operation stopped between two instructions while another one runs."""
    rng = ctx.rng
    ops = session.build(rng, stories=16, univariate=6, twins=2)
    interloper = Interloper()
    most = 60 if ctx.thorough else 14
    ctx.case("preemptions", ctx.rep, tuple(sorted(op.name for op in ops)), sample=sorted({op.name for op in ops})[:12])
    try:
        for a, b in pairs(rng, ops):
            # the first time without any call before, for what is made on first use
            cold = interrupted(ctx, interloper, a, b, int(rng.integers(1, 60)))
            alone_a, alone_b = attempt(a), attempt(b)
            count = Stop()
            count.run(a)
            results = [(cold, None)]
            points = rng.permutation(count.seen)[:most] + 1 if count.seen else []
            for at in points:
                results.append((interrupted(ctx, interloper, a, b, int(at)), int(at)))
            ctx.event("instructions seen", count.seen)
            for (got, other, site), at in results:
                if site is not None:
                    ctx.event("preemptions")
                ctx.ok(
                    got == alone_a,
                    f"{a.name} gives another result when {b.name} runs in a thread in between",
                    site=site, inputs=a.inputs, other=b.inputs,
                )
                ctx.ok(
                    other is None or other == alone_b,
                    f"{b.name} gives another result in the middle of {a.name}",
                    site=site, inputs=b.inputs, other=a.inputs,
                )
    finally:
        interloper.stop()
    ctx.event("blocked operations", interloper.late)
