"""C15: results own their data.

System: a receiver that reads every message into one recycled buffer, a sender that recycles the
bytearray it got from encode, an application that edits every dictionary it is given and the
specification.  Whatever is overwritten, everything else handed out before stays as it was.
"""
import copy

from .. import gen, lib, seams
from ..core import call, freeze, short, diff, enc_parts
from .common import boot, shape, is_decode_error, is_encode_error
from . import ops


class Kept:
    """Something the library handed out and the application keeps."""

    def __init__(self, what, obj):
        self.what = what
        self.obj = obj
        self.then = freeze(obj)


def run(run):
    t = run.t
    proc = boot(run)
    spec = gen.gen_spec(t, shipped=proc.specs, nfields=t.pick([2, 5, 10]), full=0.03)
    buf = bytearray()
    kept = []
    for step in range(4 + t.below(12)):
        for op in ops.gen_calls(t, spec, 1, proc, limit=t.pick([20, 200]), kinds=("encode", "decode")):
            handed = make(run, proc, spec, op, buf, step)
            own(run, handed, kept, spec, buf)
            kept += handed
            disturb(run, proc, spec, buf, kept, op, step)
        if len(kept) > 40:
            del kept[:20]


def make(run, proc, spec, op, buf, step):
    t = run.t
    handed = []
    if op[0] == "decode":
        recycled = t.chance(0.7)
        if recycled:
            fill(run, buf, op[1])
            arg = buf
        else:
            arg = op[1]
        out = call(proc.decode, arg, spec)
        run.evals += 1
        run.ev("decode", len(op[1]), "recycled" if recycled else "own", "ok" if out.ok else out)
        if out.ok:
            handed += [Kept("decode %d: doc_dec" % step, out.value[0]), Kept("decode %d: doc_enc" % step, out.value[1])]
        elif is_decode_error(proc, out):
            handed += [Kept("error %d: doc_dec" % step, out.exc.doc_dec), Kept("error %d: doc_enc" % step, out.exc.doc_enc)]
        if t.chance(0.5):
            run.mark("d", len(op[1]), out.ok)
        if recycled:
            # at once: a buffer still exported could not be resized
            for act in (lambda: buf.clear(), lambda: buf.extend(b"\xEE" * (1 + t.below(300)))):
                r = call(act)
                run.check(r.ok, "buffer-held", lambda: "after decode the buffer cannot be resized: %r" % r)
            run.fault("buffer_recycled")
    else:
        out = call(proc.encode, dict(op[1]), spec)
        run.evals += 1
        run.ev("encode", "ok" if out.ok else out)
        if out.ok:
            handed += [Kept("encode %d: bytes" % step, out.value[0]), Kept("encode %d: doc_enc" % step, out.value[1])]
        elif is_encode_error(proc, out):
            handed += [Kept("error %d: doc_enc" % step, out.exc.doc_enc)]
        run.mark("e", out.ok)
    for k in handed:
        if k.what.endswith("doc_enc") and isinstance(k.obj, dict):
            for name, v in k.obj.items():
                run.check(isinstance(v, dict) and all(type(x) is bytes for x in v.values()), "not-bytes",
                          lambda: "%s: element %r is %s" % (k.what, name, short(v)))
        if k.what.endswith("doc_dec") and isinstance(k.obj, dict):
            for name, v in k.obj.items():
                run.check(type(v) is str, "not-text", lambda: "%s: element %r is %s" % (k.what, name, short(v)))
    return handed


def fill(run, buf, data):
    """The next message arrives in the same buffer."""
    buf[:] = data


def mutables(o, path, out):
    if isinstance(o, (dict, bytearray, list, memoryview)):
        out.append((id(o), path, o))
    if isinstance(o, dict):
        for k, v in o.items():
            mutables(v, path + "[%r]" % (k,), out)
    elif isinstance(o, (list, tuple)):
        for i, v in enumerate(o):
            mutables(v, path + "[%d]" % i, out)


def own(run, handed, kept, spec, buf):
    """No mutable object is shared between results, with the specification or with the buffer."""
    seen = {}
    all_ = []
    for k in kept + handed:
        mutables(k.obj, k.what, all_)
    foreign = []
    mutables(spec, "specification", foreign)
    mutables(buf, "buffer", foreign)
    for i, path, o in foreign:
        seen[i] = path
    for i, path, o in all_:
        if i in seen:
            run.check(False, "shared-object", "%s and %s are one object: %s" % (seen[i], path, short(o)))
        seen[i] = path


def disturb(run, proc, spec, buf, kept, op, step):
    """The application reuses something; everything else must stay as it was."""
    t = run.t
    for _ in range(1 + t.below(3)):
        how = t.weighted([(3, "refill"), (3, "scribble"), (1, "spec"), (2, "call again")])
        victim = None
        if how == "refill":
            buf[:] = gen.slice_of(t, gen.NOISE, t.below(200))
            if buf and t.chance(0.5):
                del buf[t.below(len(buf)):]
            run.fault("buffer_refilled")
        elif how == "scribble" and kept:
            victim = t.pick(kept)
            scribble(t, victim.obj)
            run.fault("result_scribbled")
        elif how == "spec":
            keys = gen.defined(spec)
            if keys:
                spec[t.pick(keys)]["desc"] = "edited %d" % step
                if t.chance(0.3):
                    spec[t.pick(keys)]["max_len"] += 1
            run.fault("spec_edited")
        else:
            # results of later calls do not remember what was done to earlier ones
            args = ops.args_of(op)
            out, st = ops.perform(proc, op, args, spec)
            run.evals += 1
            got = ops.snapshot(op, args, out, st)
            want = ops.alone(op, spec, proc.optimize)
            run.check(got == want, "later-call-affected", lambda: "%s: got %s, in a fresh process %s" % (
                short(op), short(got, 400), short(want, 400)))
        for k in list(kept):
            if k is victim:
                kept.remove(k)
                continue
            now = freeze(k.obj)
            run.check(now == k.then, "result-changed", lambda: "%s changed %s: %s" % (
                how if victim is None else "editing " + victim.what, k.what, diff(now, k.then)))


def scribble(t, o):
    if isinstance(o, bytearray):
        for i in range(len(o)):
            o[i] ^= 0x55
        if t.chance(0.5):
            o.clear()
        o += b"scribble"
        return
    for k in list(o):
        v = o[k]
        if isinstance(v, dict):
            for x in list(v):
                v[x] = b"scribble"
            v["new"] = b"1"
            if t.chance(0.3):
                v.clear()
        else:
            o[k] = "scribble"
    if t.chance(0.5):
        o.clear()
    o["scribble"] = {"len": b"x", "data": b"y"}
