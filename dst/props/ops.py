"""Calls as data: so that the same call can be made again, elsewhere, alone."""
import copy

from .. import gen, lib, seams, words, world
from ..core import call, enc_parts, freeze, short


def gen_calls(t, spec, n, proc, limit=60, bad=0.25, kinds=("encode", "decode", "pp")):
    """n random calls under one specification: [op tuple]; arguments are never shared."""
    out = []
    for _ in range(n):
        kind = t.pick(kinds)
        if kind != "pp" and t.chance(0.005):
            doc = gen.gen_doc(t, spec, p=t.pick([0.9, 0.3]))
        else:
            doc = gen.gen_doc(t, spec, limit=limit, most=2000)
        if kind == "encode":
            if t.chance(bad) and doc:
                k = t.pick(list(doc))
                if k in spec:
                    doc[k] = gen.gen_bad_value(t, spec[k])
                else:
                    del doc[k]
            out.append(("encode", doc))
            continue
        got = call(proc.encode, dict(doc), spec)
        if kind == "decode":
            if not got.ok:
                out.append(("encode", doc))
                continue
            s = bytearray(got.value[0])
            if t.chance(bad) and s:
                how = t.below(7)
                if how == 0:
                    del s[t.below(len(s)):]
                elif how == 1:
                    s += b"0"
                elif how == 4:
                    s += s[t.below(2) * (len(s) - 1):] * (1 + t.below(3))
                elif how >= 5:
                    parts = enc_parts(got.value[1])
                    lay = world.layout_of(parts, spec) if parts else []
                    if lay:
                        world.announce(t, s, lay, spec)
                elif how == 2:
                    s[t.below(len(s))] = t.below(256)
                else:
                    s[t.below(len(s))] ^= 1 << t.below(8)
            out.append(("decode", s if t.chance(0.3) else bytes(s)))
        else:
            d = got.value[1] if got.ok and t.chance(0.5) else doc
            d = {k: v for k, v in d.items() if k in spec}
            out.append(("pp", copy.deepcopy(d), words.number(t, t.pick([30, 0, 8, 45])),
                        words.number(t, t.pick([80, 20, 40, 7, 200]))))
    return out


def args_of(op):
    """Private copies of a call's arguments."""
    if op[0] == "encode":
        return [dict(op[1])]
    if op[0] == "decode":
        return [type(op[1])(op[1])]
    return [copy.deepcopy(op[1]), op[2], op[3]]


def perform(proc, op, args, spec, stream=None, tracer=None):
    """Make the call; -> (Out, Stream or None)"""
    c = tracer.call if tracer is not None else call
    if op[0] == "encode":
        return c(proc.encode, args[0], spec), None
    if op[0] == "decode":
        return c(proc.decode, args[0], spec), None
    st = stream if stream is not None else seams.Stream()
    return c(proc.pp, args[0], spec, args[1], st, args[2]), st


def snapshot(op, args, out, st):
    """Everything observable about a finished call."""
    if op[0] == "encode":
        return (out.frozen(), freeze(args[0]))
    if op[0] == "decode":
        return (out.frozen(), freeze(args[0]))
    return (out.frozen(), freeze(args[0]), st.text())


def alone(op, spec, optimize=0):
    """The same call made alone, in a fresh process, on fresh copies of everything."""
    prev = lib.Process.current
    p = lib.Process(optimize)
    args = args_of(op)
    out, st = perform(p, op, args, copy.deepcopy(spec))
    snap = snapshot(op, args, out, st)
    if prev is not None:
        prev.activate()
    return snap


def plain_part(doc):
    return freeze({k: v for k, v in doc.items() if k not in ("p", "1", "65")})
