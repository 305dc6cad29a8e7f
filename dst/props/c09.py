"""C09: a call interrupted at any instant leaves nothing behind.

System: one caller whose calls are struck by exceptions (Ctrl-C, cancellation, timeout, memory
exhaustion) at lines inside the library or inside a specification mapping it reads; afterwards it
retries with the same objects and makes other calls.  Every later call must give the outcome of a
fresh process.
"""
import asyncio

from .. import gen, lib, seams
from ..core import call, freeze, short, diff
from ..sched import Tracer, elsewhere
from .common import boot, shape, describe_spec
from . import ops


class Cancelled(BaseException):
    pass


class Expired(Exception):
    pass


KINDS = [("KeyboardInterrupt", lambda: KeyboardInterrupt()),
         ("Cancelled", lambda: Cancelled("stop")),
         ("CancelledError", lambda: asyncio.CancelledError()),
         ("GeneratorExit", lambda: GeneratorExit()),
         ("MemoryError", lambda: MemoryError()),
         ("TimeoutError", lambda: TimeoutError("alarm")),
         ("Expired", lambda: Expired("deadline")),
         ("RecursionError", lambda: RecursionError("deep"))]


def run(run):
    t = run.t
    proc = boot(run)
    spec = gen.gen_spec(t, shipped=proc.specs, nfields=t.pick([2, 4, 8]), desc=t.chance(0.3), full=0.03)
    calls = ops.gen_calls(t, spec, 2 + t.below(3), proc)
    expected = [ops.alone(op, spec, proc.optimize) for op in calls]
    frozen = freeze(spec)
    if t.chance(0.5):
        proc = lib.Process(proc.optimize)        # cold: the first call ever is the interrupted one
    run.mark([c[0] for c in calls], len(spec))
    for round_ in range(t.weighted([(20, 2), (1, 40)]) + t.below(8)):
        i = t.below(len(calls))
        strike(run, proc, spec, frozen, calls[i], expected[i])
        # whatever comes next, on the same process
        for _ in range(t.below(3)):
            j = t.below(len(calls))
            args = ops.args_of(calls[j])
            out, st = anywhere(run, lambda: ops.perform(proc, calls[j], args, spec))
            run.evals += 1
            judge(run, "later call", calls[j], ops.snapshot(calls[j], args, out, st), expected[j])


def handling(exc, fn):
    """A call made by the handler of an exception."""
    try:
        raise exc
    except BaseException:
        try:
            return fn()
        finally:
            exc.__traceback__ = None


def anywhere(run, fn, p=0.25, exc=None):
    """The next call may be made by another thread, or while what the last one raised is being handled."""
    if exc is not None and run.t.chance(0.2):
        run.fault("call_in_handler")
        return handling(exc, fn)
    if run.t.chance(p):
        run.probe("other_thread")
        return elsewhere(fn)
    return fn()


def judge(run, what, op, got, want):
    run.check(got == want, "left-something", lambda: "%s after an interruption, %s: got %s, without it %s" % (
        what, short(op), short(got, 500), short(want, 500)))


def strike(run, proc, spec, frozen, op, want):
    t = run.t
    name, make = t.pick(KINDS)
    args = ops.args_of(op)
    base = isinstance(make(), Exception)
    fired = []
    if t.chance(0.15):
        # inside a specification mapping
        countdown = [t.below(40)]

        def hook():
            countdown[0] -= 1
            if countdown[0] < 0 and not fired:
                fired.append(make())
                raise fired[0]

        where = "mapping"
        out, st = ops.perform(proc, op, args, seams.wrap_spec(spec, hook))
    else:
        # how many points does this call have?
        probe = Tracer()
        ops.perform(lib.Process(proc.optimize), op, ops.args_of(op), spec, tracer=probe)
        proc.activate()
        at = t.below(max(1, probe.n)) if t.chance(0.8) else max(0, probe.n - 1 - t.below(12))

        def action(frame):
            fired.append(make())
            raise fired[0]

        tr = Tracer(at=at, action=action, strike=True)
        out, st = ops.perform(proc, op, args, spec, tracer=tr)
        where = tr.where
        run.steps += tr.n
        run.mark(at)
    run.evals += 1
    if not fired:
        run.ev("not struck", op[0])
        return
    run.fault("strike_" + name)
    run.ev("struck", name, where, op, out)
    what = lambda: "%s struck %s at %s" % (name, short(op), where)
    run.check(not out.ok, "passed-for-complete", lambda: "%s and the call returned %r" % (what(), out))
    if base:
        ok = out.exc is fired[0] or isinstance(out.exc, (proc.EncodeError, proc.DecodeError)) \
            or type(out.exc) is type(fired[0])
        # an exception that is on its way out of the library when struck is replaced, not lost
    else:
        ok = out.exc is fired[0]
    run.check(ok, "swallowed", lambda: "%s and the caller got %r" % (what(), out))
    run.check(freeze(spec) == frozen, "argument-changed", lambda: "%s: specification %s" % (
        what(), diff(freeze(spec), frozen)))
    if op[0] == "encode":
        run.check(ops.plain_part(args[0]) == ops.plain_part(op[1]), "argument-changed",
                  lambda: "%s: document %s" % (what(), diff(ops.plain_part(args[0]), ops.plain_part(op[1]))))
    else:
        run.check(freeze(args[0]) == freeze(op[1]), "argument-changed", lambda: "%s: argument %s" % (
            what(), diff(freeze(args[0]), freeze(op[1]))))
    if t.chance(0.7):
        # retry with the same objects
        out, st = anywhere(run, lambda: ops.perform(proc, op, args, spec), exc=out.exc)
        run.evals += 1
        got = ops.snapshot(op, args, out, st)
        if op[0] == "encode" and not out.ok:
            # a refused document may keep bitmap entries of the interrupted call: not part of C09
            got, want = no_maps(got), no_maps(want)
        judge(run, "retry", op, got, want)


def no_maps(snap):
    (kind, e), doc = snap[0], snap[1]
    strip = lambda d: {k: v for k, v in d.items() if k not in ("p", "1", "65")} if isinstance(d, dict) else d
    if isinstance(e, dict):
        e = dict(e)
        if "doc_dec" in e:
            e["doc_dec"] = strip(e["doc_dec"])
    return ((kind, e), strip(doc))
