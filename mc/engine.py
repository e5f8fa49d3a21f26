"""Exhaustive exploration driver: enumerates every case of every task, in parallel."""
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
from itertools import islice

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HANG_S = 60  # of processor time for one case
STUCK_S = 400  # of real time, for a case that waits for ever


class Violation(Exception):
    """case: a smaller replayable case than the one being checked"""

    def __init__(self, msg, case=None):
        super().__init__(msg)
        self.case = case


class Counter:
    """What one task covered."""

    def __init__(self):
        self.transitions = 0
        self.traces = 0
        self.extra = {}
        self._seen = set()
        self.samples = []

    def state(self, *s):
        self._seen.add(hash(s))

    def alive(self):
        """progress inside a long case: restart the hang timers"""
        _timers(HANG_S, STUCK_S)

    def note(self, k, n=1):
        self.extra[k] = self.extra.get(k, 0) + n

    def step(self, got, want, what):
        """one executed transition: implementation successor must be the model successor"""
        self.transitions += 1
        if got != want:
            raise Violation("%s: got %s, model says %s" % (what, got, want))


def _in_check(e):
    """did the exception come out of check(), not out of the enumeration of cases?"""
    tb = e.__traceback__
    while tb:
        if tb.tb_frame.f_code.co_name == "check":
            return True
        tb = tb.tb_next
    return False


class Hang(BaseException):
    pass


def _timers(cpu, wall):
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
    signal.alarm(wall)


def _alarm(*_):
    raise Hang()


def _run_task(arg):
    prop, tier, task, stripe, stripes = arg
    t0 = time.time()
    mod = importlib.import_module("mc.props." + prop.lower())
    c = Counter()
    case = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGVTALRM, _alarm)
    try:
        for case in islice(mod.cases(task, tier), stripe, None, stripes):
            _timers(HANG_S, STUCK_S)
            mod.check(case, c)
            c.traces += 1
            if len(c.samples) < 1:
                c.samples.append(case)
        _timers(0, 0)
        return dict(task=task, states=len(c._seen), transitions=c.transitions, traces=c.traces,
                    extra=c.extra, samples=c.samples, t=time.time() - t0)
    except Violation as e:
        return dict(task=task, violation=str(e), case=e.case or case)
    except Hang:
        return dict(task=task, violation="no result within %d s of processor time" % HANG_S, case=case)
    except (MemoryError, OSError):
        return dict(task=task, error=traceback.format_exc(), case=case)
    except Exception as e:  # noqa: BLE001
        if not _in_check(e):
            return dict(task=task, error=traceback.format_exc(), case=case)
        # a case that the model can execute makes the implementation (or its use) fail
        return dict(task=task, violation="unexpected %s: %s" % (type(e).__name__, e), case=case)
    finally:
        _timers(0, 0)


def replay(path):
    d = json.load(open(path))
    mod = importlib.import_module("mc.props." + d["property"].lower())
    try:
        mod.check(d["case"], Counter())
    except Exception as e:  # noqa: BLE001
        print("reproduced: %s: %s" % (type(e).__name__, e))
        return 1
    print("not reproduced")
    return 0


def main(prop, tier, seed):
    t0 = time.time()
    mod = importlib.import_module("mc.props." + prop.lower())
    tasks = list(mod.tasks(tier))
    # a heavy task is cut into stripes of every n-th case
    cut = getattr(mod, "stripes", lambda task, tier: 1)
    work = [(prop, tier, t, k, n) for t in tasks for n in (cut(t, tier),) for k in range(n)]
    random.Random(seed).shuffle(work)  # order only; every task is always run
    long = getattr(mod, "LONG", ())  # kinds of tasks to start early
    work.sort(key=lambda w: (w[2][0] not in long, -w[4]))
    tot = dict(states=0, transitions=0, traces=0)
    extra = {}
    samples = []
    bad = None
    err = None
    procs = int(os.environ.get("MC_PROCS") or min(8, os.cpu_count() or 1))
    ctx = mp.get_context("fork")
    # FRESH: every task runs in a process forked from this one, which has never called the library
    with ctx.Pool(procs, maxtasksperchild=1 if getattr(mod, "FRESH", False) else None) as pool:
        for r in pool.imap_unordered(_run_task, work):
            if "error" in r:
                err = r
                break
            if "violation" in r:
                bad = r
                break
            if os.environ.get("MC_TIMES"):
                sys.stderr.write("%7.2f s  ends %7.2f  %r\n" % (r["t"], time.time() - t0, r["task"]))
            for k in tot:
                tot[k] += r[k]
            for k, v in r["extra"].items():
                extra[k] = extra.get(k, 0) + v
            if len(samples) < 12:
                samples += [json.dumps(s)[:300] for s in r["samples"]]
        pool.terminate()
    if err:
        sys.stderr.write("check error in task %r case %r\n%s" % (err["task"], err["case"], err["error"]))
        return 2
    wall = time.time() - t0
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot["states"], transitions=tot["transitions"],
            traces_validated_against_impl=tot["traces"],
            samples=samples or ["(none)"], exhaustive=bad is None,
            tasks_completed=len(work) if bad is None else None, bounds=mod.BOUNDS.get(tier, ""), detail=extra,
            how_validated="every model trace is executed step by step on the implementation in /repo; "
                          "states are counted distinct per task and summed over disjoint tasks",
        ),
        wall_s=round(wall, 2),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
    )
    ev["coverage"] = {k: v for k, v in ev["coverage"].items() if v is not None}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    code = 0
    if bad:
        rp = os.path.join(HERE, "evidence", "replay-%s.json" % prop)
        with open(rp, "w") as f:
            json.dump(dict(property=prop, tier=tier, task=bad["task"], case=bad["case"], what=bad["violation"],
                           replay_with="%s/bin/replay %s" % (HERE, rp)), f, indent=1)
        ev["violations"] = 1
        print("%s: %s" % (prop, bad["violation"]))
        print("case: %s" % json.dumps(bad["case"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        code = 1
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not bad:
        print("%s %s: held. states=%d transitions=%d traces=%d wall=%.1fs" % (
            prop, tier, tot["states"], tot["transitions"], tot["traces"], wall))
    sys.stdout.flush()
    return code
