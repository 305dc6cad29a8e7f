"""Control of execution inside the library: points, interrupts, nested calls, thread schedules.

A *point* is a trace event of a frame whose code comes from the library (a line about to run, or a
bytecode about to run), or a callback from the library into a simulator-owned object.  Only points
decide anything, so an execution is a function of the tape.
"""
import ast
import sys
import threading
import _thread

from . import lib
from .core import StepBudget, Out, Violation, Hang

MAX_STEPS = 10_000_000     # far beyond any call on the small documents used with tracing

_incode = {}


def _library_code(code):
    r = _incode.get(code)
    if r is None:
        r = lib.in_library(code.co_filename)
        _incode[code] = r
    return r


_cleanup = {}


def strikeable(frame):
    """May an exception from outside strike at this line event?

    Not where the interpreter never delivers one and a program cannot defend itself: on entering or
    leaving a with or try statement, in its finally and except clauses, in __exit__ and __del__.
    """
    code = frame.f_code
    lines = _cleanup.get(code.co_filename)
    if lines is None:
        lines = _cleanup[code.co_filename] = set()
        for node in ast.walk(ast.parse(lib.sources.get(code.co_filename, b""))):
            if isinstance(node, (ast.With, ast.AsyncWith)):
                lines.update(range(node.lineno, max(node.body[0].lineno, node.lineno + 1)))
            elif isinstance(node, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                lines.add(node.lineno)
                for part in node.handlers + node.finalbody:
                    lines.update(range(part.lineno, part.end_lineno + 1))
            elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) and node.name in (
                    "__exit__", "__aexit__", "__del__", "release"):
                lines.update(range(node.lineno, node.end_lineno + 1))
    if frame.f_lineno in lines:
        return False
    # called from such a place?
    back = frame.f_back
    return back is None or not _library_code(back.f_code) or strikeable(back)


class Tracer:
    """Counts library line events on this thread; at event `at` performs `action(frame)` once."""

    def __init__(self, at=None, action=None, budget=MAX_STEPS, returns=False,
                 opcodes=False, strike=False):
        self.n = 0
        self.strike = strike         # the action raises: only where that is fair
        self.opcodes = opcodes
        self.at = at
        self.action = action
        self.budget = budget
        self.where = None
        self.events = ("opcode",) if opcodes else ("line", "return") if returns else ("line",)

    def _global(self, frame, event, arg):
        if _library_code(frame.f_code):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event in self.events:
            n = self.n
            self.n = n + 1
            if n == self.at:
                if self.strike and not strikeable(frame):
                    self.at += 1
                    return self._local
                self.where = (frame.f_code.co_name, frame.f_lineno)
                self.action(frame)
            elif n > self.budget:
                raise StepBudget("more than %d steps" % self.budget)
        return self._local

    def call(self, f, *a, **k):
        """Like core.call, traced."""
        old = sys.gettrace()
        sys.settrace(self._global)
        try:
            v = f(*a, **k)
        except (Violation, lib.SimDeadlock, StepBudget, Hang, SystemExit):
            raise
        except BaseException as e:
            e.__traceback__ = None
            return Out(False, None, e)
        finally:
            sys.settrace(old)
        return Out(True, v, None)


def count_points(f, *a, returns=False, **k):
    """-> (number of line events inside the library, outcome)"""
    tr = Tracer(returns=returns)
    out = tr.call(f, *a, **k)
    return tr.n, out


def elsewhere(fn):
    """fn(), called in a new thread that the caller waits for."""
    box = []

    def body():
        try:
            box.append((True, fn()))
        except BaseException as e:
            box.append((False, e))
    th = threading.Thread(target=body, daemon=True)
    th.start()
    th.join()
    if not box[0][0]:
        raise box[0][1]
    return box[0][1]


class Task:
    def __init__(self, idx, fn):
        self.idx = idx
        self.fn = fn
        self.gate = lib.real_allocate_lock()
        self.gate.acquire()
        self.done = False
        self.error = None
        self.blocked_on = None
        self.thread = None


class Scheduler:
    """Runs functions as real threads, exactly one at a time; the tape decides every switch.

    gaps: (smallest, largest) number of points between two decisions; opcodes: bytecode points.
    """

    def __init__(self, run, fns, opcodes, gap, budget=MAX_STEPS):
        self.run_ctx = run
        self.t = run.t
        self.tasks = [Task(i, f) for i, f in enumerate(fns)]
        self.opcodes = opcodes
        self.gap = gap
        self.countdown = 0
        self.current = None
        self.main = lib.real_allocate_lock()
        self.main.acquire()
        self.switches = 0
        self.points = 0
        self.budget = budget
        self.schedule = []
        self.dead = False
        self.failure = None
        self.strike = None       # [task index or None: whoever keeps another waiting, lines to come, action]
        self.local = self._tracer()

    # -- decisions
    def _reload(self):
        self.countdown = 1 + self.gap[0] + self.t.below(self.gap[1] - self.gap[0] + 1)

    def _runnable(self):
        return [x for x in self.tasks if not x.done
                and (x.blocked_on is None or x.blocked_on.owner is None)]

    def _choose(self, prefer):
        r = self._runnable()
        if not r:
            return None
        if prefer in r:      # choice 0 keeps the current task: fewest switches
            r.remove(prefer)
            r.insert(0, prefer)
        return r[self.t.below(len(r))]

    def _keeps_waiting(self):
        """The running task holds a lock another task waits for."""
        return any(x.blocked_on is not None and x.blocked_on.owner == self.current.ident for x in self.tasks)

    # -- called by running tasks
    def point(self):
        """A place where the running thread may lose the processor."""
        me = self.current
        if me is None or _thread.get_ident() != me.ident:
            return
        self.points += 1
        self.countdown -= 1
        if self.countdown <= 0:
            self._decide()

    def _decide(self):
        if self.points > self.budget:
            raise StepBudget("more than %d points" % self.budget)
        me = self.current
        self._reload()
        nxt = self._choose(me)
        if nxt is not me:
            self.switches += 1
            self._switch(me, nxt)

    def _switch(self, me, nxt):
        self.schedule.append((self.points, nxt.idx))
        self.current = nxt
        nxt.gate.release()
        me.gate.acquire()
        if self.dead:
            raise SystemExit

    def wait_for(self, lock):
        """The running task waits for a SimLock.  False if nobody can ever release it."""
        me = self.current
        if me is None:
            return False
        me.blocked_on = lock
        nxt = self._choose(me)
        if nxt is None or nxt is me:
            me.blocked_on = None
            return nxt is me
        self._switch(me, nxt)
        me.blocked_on = None
        return True

    # -- tracing
    def _global(self, frame, event, arg):
        if _library_code(frame.f_code):
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return self.local
        return None

    def _tracer(self):
        """The local trace function: only the running task's frames reach it."""
        kind = "opcode" if self.opcodes else "line"

        def local(frame, event, arg):
            if event == kind:
                self.points += 1
                c = self.countdown = self.countdown - 1
                if c <= 0 and not self.dead:
                    self._decide()
                k = self.strike
                if k is not None and self.current is not None and not self.dead and (
                        self.current.idx == k[0] if k[0] is not None else self._keeps_waiting()):
                    k[1] -= 1
                    if k[1] < 0 and strikeable(frame):
                        self.strike = None
                        k[2]()
            return local
        return local

    def rearm(self):
        """An exception out of a trace function ends the tracing of its thread: trace again."""
        if not self.dead:
            sys.settrace(self._global)

    # -- threads
    def _body(self, task):
        task.ident = _thread.get_ident()
        task.gate.acquire()
        if not self.dead:
            sys.settrace(self._global)
            try:
                task.fn()
            except SystemExit:
                pass
            except BaseException as e:
                self.failure = self.failure or e
            finally:
                sys.settrace(None)
        task.done = True
        if self.dead:
            return
        if self.failure is not None:
            self.main.release()
            return
        nxt = self._choose(None)
        if nxt is None:
            if not all(x.done for x in self.tasks):
                self.failure = lib.SimDeadlock("threads wait for each other")
            self.main.release()
            return
        self.schedule.append((self.points, nxt.idx))
        self.current = nxt
        nxt.gate.release()

    def run(self):
        prev = lib.SimLock.scheduler
        lib.SimLock.scheduler = self
        try:
            for x in self.tasks:
                x.thread = threading.Thread(target=self._body, args=(x,), daemon=True)
                x.thread.start()
            self._reload()
            first = self._choose(None)
            self.schedule.append((0, first.idx))
            self.current = first
            first.gate.release()
            self.main.acquire()
        finally:
            self.dead = True
            self.current = None
            for x in self.tasks:
                if not x.done:
                    try:
                        x.gate.release()
                    except RuntimeError:
                        pass
            lib.SimLock.scheduler = prev
        for x in self.tasks:
            x.thread.join(5)
        if self.failure is not None:
            raise self.failure
