"""C14: errors cross process boundaries intact.

System: a pool of worker processes (own module objects, other optimisation levels) whose failures are
pickled, travel over links that duplicate, delay and reorder, and are unpickled, copied and passed on
by other processes.
"""
import copy
import pickle

from .. import gen, lib, seams, world
from ..core import call, freeze, short, diff
from .common import boot, lived, shape, is_decode_error, is_encode_error
from . import ops


def run(run):
    t = run.t
    procs = [lived(run, lib.Process(t.weighted([(4, 0), (1, 1), (1, 2)]))) for _ in range(2 + t.below(3))]
    w = world.World(run)
    spec = gen.gen_spec(t, shipped=procs[0].specs, nfields=t.pick([2, 5, 10]), nodesc=0.1)
    links = {}
    arrived = [0]

    def link(i, j):
        if (i, j) not in links:
            links[(i, j)] = world.Link(w, {"loss": 0, "dup": 0.25, "slow": 0.3, "latency": 0.003, "jitter": True,
                                           "faults_on": lambda: True})
        return links[(i, j)]

    def work(i, op):
        p = procs[i].activate()
        out, _ = ops.perform(p, op, ops.args_of(op), spec)
        run.evals += 1
        if out.ok or not (is_decode_error(p, out) or is_encode_error(p, out)):
            run.probe("no_error")
            return
        e = out.exc
        run.mark(type(e).__name__, e.field, len(e.doc_enc))
        pass_on(i, e, facts(e), 1 + t.below(4))

    def pass_on(i, e, want, hops):
        """Process i holds the error and ships it on."""
        p = procs[i].activate()
        how = t.weighted([(6, "pickle"), (1, "copy"), (1, "deepcopy")])
        if how != "pickle":
            c = call(copy.copy if how == "copy" else copy.deepcopy, e)
            judge(i, c, want, how)
            e = c.value
        if hops == 0:
            return
        proto = t.below(pickle.HIGHEST_PROTOCOL + 1)
        obj = e
        wrap = t.weighted([(4, "bare"), (1, "list"), (1, "as cause"), (1, "twice")])
        if wrap == "list":
            obj = ["result", e]
        elif wrap == "twice":
            obj = [e, e]
        elif wrap == "as cause":
            obj = {"error": e, "doc": e.doc_dec}
        out = call(pickle.dumps, obj, proto)
        run.evals += 1
        run.check(out.ok, "not-shippable", lambda: "pickle protocol %d: %r for %r" % (proto, out, e))
        j = t.below(len(procs))
        run.fault("shipped_protocol_%d" % proto)
        link(i, j).send(lambda data: receive(j, data, wrap, want, hops - 1, proto), out.value)

    def receive(j, data, wrap, want, hops, proto):
        p = procs[j].activate()
        out = call(pickle.loads, data)
        run.evals += 1
        run.check(out.ok, "not-received", lambda: "pickle protocol %d: unpickling raised %r" % (proto, out))
        v = out.value
        if wrap in ("list", "twice"):
            v = v[1]
        elif wrap == "as cause":
            v = v["error"]
        from ..core import Out
        judge(j, Out(True, v, None), want, "pickle protocol %d" % proto)
        arrived[0] += 1
        pass_on(j, v, want, hops)

    def judge(i, c, want, how):
        p = procs[i]
        run.check(c.ok, "not-copied", lambda: "%s raised %r" % (how, c))
        e = c.value
        cls = p.EncodeError if want["type"] == "EncodeError" else p.DecodeError
        run.check(type(e) is cls and isinstance(e, ValueError), "other-type", lambda: "%s: arrived as %s, was %s" % (
            how, type(e), want["type"]))
        got = facts(e)
        run.check(got == want, "changed", lambda: "%s: %s" % (how, diff(got, want)))
        run.ev("intact", i, how, want["text"])

    for k, op in enumerate(ops.gen_calls(t, spec, 2 + t.below(4), procs[0], limit=60, bad=0.9,
                                         kinds=("encode", "decode"))):
        w.after(0.001 * k, work, t.below(len(procs)), op)
    if t.chance(0.15):
        # an application raises one itself
        p = procs[0].activate()
        e = p.EncodeError(t.pick(["", "x", "Field data is required: field 2", "é %s {} \n"]), {"t": "0200"}, {}, "t") \
            if t.chance(0.5) else p.DecodeError("bad", t.pick([b"", bytearray(b"02")]), {}, {"t": {"len": b"", "data": b"02"}}, 0, "t")
        pass_on(0, e, facts(e), 2)
    w.go(max_events=5000)


def facts(e):
    out = {"type": type(e).__name__, "text": str(e), "args": freeze(e.args)}
    for a in ("msg", "field", "doc_dec", "doc_enc", "pos", "s"):
        if hasattr(e, a):
            v = getattr(e, a)
            out[a] = freeze(v)
    return out
