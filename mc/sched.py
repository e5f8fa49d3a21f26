"""Two threads of the real library under a chosen schedule.

A schedule is a list of segments [thread, n]: that thread runs until it has executed n more visible steps
(n = None: to completion).  Steps are bytecode instructions of library code that can touch anything outside the
frame's own locals and stack ("op"), or source lines ("line").  Instructions that only move locals, constants and
stack items commute with everything the other thread does, so preempting before them is the same as preempting
before the next visible one (partial-order reduction).
"""
import os
import sys
import threading
import time
from opcode import opmap, opname

from mc import api, ops

PREFIX = os.path.realpath(os.path.join(api.REPO, "epcpy")) + os.sep
_LOCAL = {"LOAD_FAST", "LOAD_FAST_CHECK", "LOAD_FAST_AND_CLEAR", "STORE_FAST", "DELETE_FAST", "LOAD_CONST", "POP_TOP", "PUSH_NULL",
          "COPY", "SWAP", "NOP", "CACHE", "RESUME", "EXTENDED_ARG", "JUMP_FORWARD", "JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT",
          "POP_JUMP_IF_NONE", "POP_JUMP_IF_NOT_NONE", "KW_NAMES", "IS_OP", "END_FOR", "MAKE_CELL", "COPY_FREE_VARS", "RETURN_CONST",
          "PUSH_EXC_INFO", "POP_EXCEPT", "LOAD_FAST_LOAD_FAST", "STORE_FAST_STORE_FAST", "STORE_FAST_LOAD_FAST"}
LOCAL = bytes(1 if opname[i] in _LOCAL else 0 for i in range(256))
assert opmap
STALL_S = 5.0
_code = {}
_ours = {}


def _is_ours(code):
    r = _ours.get(code)
    if r is None:
        r = _ours[code] = os.path.realpath(code.co_filename).startswith(PREFIX)
    return r


def _bytes(code):
    b = _code.get(code)
    if b is None:
        b = _code[code] = code.co_code
    return b


def _arm():
    """CPython delivers opcode events only to trace functions set after the first frame asked for them"""
    def call(frame, event, arg):
        frame.f_trace_opcodes = True
        return call
    old = sys.gettrace()
    sys.settrace(call)
    (lambda: None)()
    sys.settrace(old)


_arm()


class Deadlock(Exception):
    pass


class _Worker(threading.Thread):
    def __init__(self, owner):
        super().__init__(daemon=True)
        self.owner = owner
        self.go = threading.Lock()
        self.go.acquire()
        self.job = None
        self.out = None
        self.count = 0
        self.limit = -1
        self.done = True
        self.paused = False

    def run(self):
        while True:
            self.go.acquire()
            if self.job is None:
                return
            fn, opcodes = self.job
            self._opcodes = opcodes
            try:
                if self.limit == 0:
                    self._pause()
                sys.settrace(self._call)
                try:
                    self.out = fn()
                finally:
                    sys.settrace(None)
            except BaseException as e:  # noqa: BLE001
                self.out = "thread died: %r" % e
            self.done = True
            self.owner.wake()

    def _pause(self):
        self.limit = -1
        self.paused = True
        self.owner.wake()
        self.go.acquire()

    def sleeping(self):
        try:
            with open("/proc/self/task/%d/stat" % self.native_id) as f:
                return f.read().rpartition(")")[2].split()[0] == "S"
        except OSError:
            return True

    def _call(self, frame, event, arg):
        if not _is_ours(frame.f_code):
            return None
        if self._opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            return self._op
        return self._line

    def _op(self, frame, event, arg):
        if event == "opcode" and not LOCAL[_bytes(frame.f_code)[frame.f_lasti]]:
            if self.count == self.limit:
                self._pause()
            self.count += 1
        return self._op

    def _line(self, frame, event, arg):
        if event == "line":
            if self.count == self.limit:
                self._pause()
            self.count += 1
        return self._line


class Pair:
    """two reusable threads"""

    def __init__(self):
        self.back = threading.Lock()
        self.back.acquire()
        self.blocked = 0
        self.w = [_Worker(self), _Worker(self)]
        for x in self.w:
            x.start()

    def wake(self):
        try:
            self.back.release()
        except RuntimeError:
            pass  # already signalled

    def close(self):
        for x in self.w:
            if x.done:
                x.job = None
                x.go.release()

    def _settle(self, x):
        """wait until the thread has paused or finished; False when it sleeps on something else"""
        end = time.monotonic() + STALL_S
        asleep = 0
        while not (x.done or x.paused):
            if self.back.acquire(timeout=0.001):
                continue
            asleep = asleep + 1 if x.sleeping() else 0
            if asleep > 1 or time.monotonic() > end:
                return x.done or x.paused
        return True

    def run(self, fns, plan, opcodes):
        """-> (outcomes, steps per thread); raises Deadlock"""
        for x, f in zip(self.w, fns):
            x.job = (f, opcodes)
            x.out = None
            x.count = 0
            x.limit = -1
            x.paused = False
            x.done = False
        stuck = [False, False]
        for t, n in list(plan) + [[0, None], [1, None]]:
            x = self.w[t]
            if x.done or stuck[t]:
                continue
            x.limit = -1 if n is None else x.count + n
            x.paused = False
            x.go.release()
            if not self._settle(x):
                stuck[t] = True  # waiting for something the other thread holds
                self.blocked += 1
        end = time.monotonic() + 4 * STALL_S
        while not (self.w[0].done and self.w[1].done):
            for x in self.w:
                if x.paused:
                    x.paused = False
                    x.go.release()
            self.back.acquire(timeout=0.05)
            if time.monotonic() > end:
                raise Deadlock()
        while self.back.acquire(blocking=False):
            pass
        return [x.out for x in self.w], [x.count for x in self.w]


def run_schedule(req):
    """(op a, op b, plan, opcodes) in fresh instances; outcomes, URIs afterwards, steps"""
    a, b, plan, opcodes = req
    p = Pair()
    try:
        return run_in(p, a, b, plan, opcodes)
    except Deadlock:
        return ["deadlock", "deadlock"], [], [0, 0]
    finally:
        p.close()


def run_in(p, a, b, plan, opcodes):
    w = ops.World()
    w.prepare(a)
    w.prepare(b)
    out, n = p.run([lambda: ops.do(a, w), lambda: ops.do(b, w)], plan, opcodes)
    return out, sorted((list(k), x.epc_uri) for k, x in w.at.items()), n
