"""C10: calls made from within a call do not disturb it.

System: one thread whose calls are entered again from signal handlers and finalisers (any line or
bytecode of the library), from the output stream's write, from a text codec, from a specification mapping, up to
three levels deep (now and then eight).  Every call, at whatever depth, must give the outcome it gives alone.
"""
from .. import gen, lib, seams
from ..core import call, freeze, short, diff
from ..sched import Tracer
from .common import boot, shape
from . import ops


def run(run):
    t = run.t
    proc = boot(run)
    spec = gen.gen_spec(t, shipped=proc.specs, nfields=t.pick([2, 4, 8]), desc=t.chance(0.3), full=0.03)
    calls = ops.gen_calls(t, spec, 3 + t.below(3), proc)
    if t.chance(0.3):
        other = gen.gen_spec(t, nfields=3)
        others = ops.gen_calls(t, other, 2, proc)
    else:
        other, others = spec, []
    table = [(c, spec, ops.alone(c, spec, proc.optimize), ops.args_of(c)) for c in calls]
    table += [(c, other, ops.alone(c, other, proc.optimize), ops.args_of(c)) for c in others]
    proc = lib.Process(proc.optimize) if t.chance(0.6) else proc.activate()
    run.mark([c[0][0] for c in table])
    deepest = t.weighted([(16, 3), (1, 8)])
    for _ in range(2 + t.below(6)):
        if t.chance(0.3):
            proc = lib.Process(proc.optimize)        # the first call ever is the one that is entered again
        enter(run, proc, table, 0, deepest)


def inner(run, proc, table, depth, where, deepest):
    run.fault("reentered_from_" + where)
    run.ev("reenter", where, depth)
    enter(run, proc, table, depth + 1, deepest)


def enter(run, proc, table, depth, deepest):
    """Make one call, with other calls nested in it."""
    t = run.t
    op, spec, want, args = table[t.below(len(table))]
    if op[0] == "encode" or t.chance(0.6):
        args = ops.args_of(op)        # else the very objects that other calls, perhaps still at work, were given
    how = "plain"
    if depth < deepest:
        how = t.weighted([(5, "line"), (3, "stream"), (2, "codec"), (2, "mapping"), (1, "plain")])
        if depth and how == "line":
            how = "plain" if deepest == 3 and t.chance(0.5) else "mapping"    # one trace function per thread
    if how == "stream" and op[0] != "pp":
        how = "codec"
    run.ev("enter", depth, how, op)
    calls = [t.below(6 if how == "codec" else 30)]
    budget = [1 + t.below(2)]

    def hook(*a):
        calls[0] -= 1
        if calls[0] < 0 and budget[0] > 0:
            budget[0] -= 1
            calls[0] = t.below(12)
            inner(run, proc, table, depth, how, deepest)

    stream = seams.Stream(hook=hook) if how == "stream" and op[0] == "pp" else None
    registry = None
    try:
        use, tracer = spec, None
        if how == "mapping":
            use = seams.wrap_spec(spec, hook)
        elif how == "codec":
            registry = seams.Registry(lambda o, name: hook())
            use = {}
            for k, fs in spec.items():
                fs = dict(fs)
                for a in ("data_enc", "len_enc"):
                    if fs[a] in gen.TEXT and (a == "data_enc" or fs["len_type"]):
                        fs[a] = registry.name(fs[a], "d%d" % depth)
                use[k] = fs
        elif how == "line":
            fine = t.chance(0.5)                  # at a bytecode, else at a line
            probe = Tracer(opcodes=fine)
            ops.perform(lib.Process(proc.optimize), op, ops.args_of(op), spec, tracer=probe)
            proc.activate()
            at = t.below(max(1, probe.n))
            run.mark(at)
            tracer = Tracer(at=at, action=lambda frame: inner(
                run, proc, table, depth, "bytecode" if fine else "line", deepest), opcodes=fine)
        out, st = ops.perform(proc, op, args, use, stream=stream, tracer=tracer)
    finally:
        if registry is not None:
            registry.close()
    run.evals += 1
    got = ops.snapshot(op, args, out, st)
    run.check(got == want, "disturbed", lambda: "call at depth %d (%s), %s: got %s, alone %s" % (
        depth, how, short(op), short(got, 500), short(want, 500)))
