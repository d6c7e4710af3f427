"""Property checks: obligations, verdicts and the task runner."""
import os
import signal
import sys
import time
import traceback
from multiprocessing import Pool

from .harness import *
from .interp import Undecided, UNMODELLED
from .terms import UNK

CRATES = {}          # configuration name -> Crate


class Out:
    """verdicts of one task (picklable)"""

    def __init__(self, task=""):
        self.task = task
        self.ok = {}          # rule -> number of discharged obligations
        self.bad = []         # (rule, key, where, message)
        self.und = []         # (rule, key, where, message)
        self.info = {}
        self.notes = []
        self.samples = []
        self.wall = 0.0

    def good(self, rule, n=1):
        self.ok[rule] = self.ok.get(rule, 0) + n

    def fail(self, rule, key, where, msg):
        self.bad.append((rule, key, str(where), msg))

    def undecided(self, rule, key, where, msg):
        self.und.append((rule, key, str(where), msg))

    def count(self, what, n=1):
        self.info[what] = self.info.get(what, 0) + n

    def require(self, rule, cond, key, where, msg):
        if cond is True:
            self.good(rule)
        elif cond is None:
            self.undecided(rule, key, where, msg)
        else:
            self.fail(rule, key, where, msg)
        return cond is True

    def merge(self, o):
        for k, n in o.ok.items():
            self.good(k, n)
        self.bad += o.bad
        self.und += o.und
        for k, n in o.info.items():
            self.count(k, n)
        self.notes += o.notes
        if len(self.samples) < 12:
            self.samples += o.samples[:2]


def where(fn, loc):
    if isinstance(loc, (list, tuple)) and len(loc) >= 2:
        return f"{loc[0]}:{loc[1]} in {fn}"
    return f"{fn}"


def panic_obligations(out, r, rule, only=None):
    """turn the panic obligations of a run into verdicts: proven / violated (the path condition is
    exact) / undecided (the goal depends on values lost in a join or loop summary)"""
    seen = {}
    for o in r.e.obls:
        if only is not None and not only(o):
            continue
        k = (o.fn, str(o.loc), o.kind)
        if o.status == "ok":
            seen.setdefault(k, "ok")
        else:
            cur = seen.get(k)
            if o.weak:
                if cur != "bad":
                    seen[k] = "und"
            else:
                seen[k] = "bad"
                seen[k + ("m",)] = (o.note or "") + " not excluded: " + repr(o.goal)[:160]
    for k, v in seen.items():
        if len(k) == 4:
            continue
        fn, loc, kind = k
        if v == "ok":
            out.good(rule)
        elif v == "und":
            out.undecided(rule, f"{kind}|{fn}", loc + " " + fn, "not decided in this context")
        else:
            out.fail(rule, f"{kind}|{fn}", loc + " " + fn, seen[k + ("m",)])


class OutOfTime(BaseException):
    """raised by the alarm clock: what the task has not decided by now stays undecided"""


DEADLINE = None


def _alarm(*_):
    raise OutOfTime()


class Task:
    def __init__(self, name, fn, *args, cfg=("default", "full"), weight=1):
        self.name = name
        self.fn = fn
        self.args = args
        self.cfg = cfg
        self.weight = weight


def run_task(t):
    name, fn, args, cfg = t
    o = Out(name)
    t0 = time.time()
    UNMODELLED.clear()
    UNK.clear()
    try:
        if DEADLINE is not None:
            signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, max(0.01, DEADLINE - time.time()))
        fn(o, CRATES[cfg], *args)
        signal.setitimer(signal.ITIMER_REAL, 0)
    except OutOfTime:
        o.undecided("analysis", name, name, "analysis gave up: out of time")
    except Undecided as ex:
        o.undecided("analysis", name, name, f"analysis gave up: {ex}")
    except RecursionError as ex:
        o.undecided("analysis", name, name, f"analysis gave up: {ex!r}")
    except Exception as ex:        # a construct the analyser does not know
        o.undecided("analysis", name, name, f"analysis gave up: {ex!r}")
        o.notes.append(traceback.format_exc()[-1500:])
    signal.setitimer(signal.ITIMER_REAL, 0)
    if UNMODELLED or UNK:
        # part of what this task looked at is code the analyser has no model of: nothing that does not
        # hold in the model can be held against the program
        why = ", ".join(sorted(UNMODELLED)[:3]) or "a value of unknown origin"
        o.und += [(rule, key, w, f"{msg} [not decided: {why}]") for rule, key, w, msg in o.bad]
        o.bad = []
    for k in UNMODELLED:
        o.count("unmodelled: " + k)
    o.count("decisions on unknown values", len(UNK))
    if os.environ.get("TMF_UNK"):
        src = {}
        for b in UNK:
            for a in b.deps:
                if a.unk and isinstance(a.key, tuple) and not any(x.unk for x in a.deps if x is not a):
                    src[a] = src.get(a, 0) + 1
        for a, n in src.items():
            o.count("unk source: " + repr(a)[:150] + str(a.key[0]), n)
    o.wall = time.time() - t0
    return o


def run_tasks(tasks, procs=8):
    jobs = []
    for t in tasks:
        for c in t.cfg:
            if c in CRATES:
                jobs.append((t.weight, (f"{t.name}@{c}", t.fn, t.args, c)))
    jobs.sort(key=lambda x: -x[0])
    global JOBS
    JOBS = [j for _, j in jobs]
    if os.environ.get("TMF_SERIAL"):
        return [run_task(j) for j in JOBS]
    with Pool(min(procs, max(1, len(JOBS)))) as p:
        return list(p.imap_unordered(_idx, range(len(JOBS)), chunksize=1))


JOBS = []


def _idx(i):
    return run_task(JOBS[i])
