"""C17: a missing or failing text encoding is reported, not fatal.

System: the interpreter's codec registry, in which encodings named by the specification are unknown,
fail to load, or fail at any lookup or conversion, for a while or for good.
"""
import copy

from .. import gen, lib, model, seams
from ..core import call, enc_parts, freeze, short, diff
from .c09 import anywhere
from .common import boot, shape, is_decode_error, is_encode_error, describe_spec


class Custom(Exception):
    pass


FAULTS = [("unknown", None), ("bad", None),
          ("LookupError", lambda: LookupError("unknown encoding: sim")),
          ("OSError", lambda: OSError(5, "Input/output error")),
          ("ImportError", lambda: ImportError("No module named encodings.sim")),
          ("UnicodeError", lambda: UnicodeError("bad")),
          ("UnicodeDecodeError", lambda: UnicodeDecodeError("sim", b"x", 0, 1, "bad")),
          ("UnicodeEncodeError", lambda: UnicodeEncodeError("sim", "x", 0, 1, "bad")),
          ("ValueError", lambda: ValueError("bad table")),
          ("TypeError", lambda: TypeError("bad table")),
          ("KeyError", lambda: KeyError("table")),
          ("IndexError", lambda: IndexError("table")),
          ("AttributeError", lambda: AttributeError("table")),
          ("MemoryError", lambda: MemoryError()),
          ("RuntimeError", lambda: RuntimeError("codec state")),
          ("RecursionError", lambda: RecursionError("codec")),
          ("AssertionError", lambda: AssertionError("table")),
          ("ZeroDivisionError", lambda: ZeroDivisionError("table")),
          ("OverflowError", lambda: OverflowError("table")),
          ("StopIteration", lambda: StopIteration()),
          ("EOFError", lambda: EOFError("table")),
          ("Custom", lambda: Custom("own"))]

# names no codec answers to, and codecs that are not text encodings
MISSING = ["no-such-encoding", "ebcdic", "", "cp9999", "hex", "rot13", "zlib", "ascii\0", "utf-8-latin"]


def run(run):
    t = run.t
    proc = boot(run)
    spec = gen.gen_spec(t, shipped=proc.specs, nfields=t.pick([2, 5, 10]), full=0.04, alias=0, nodesc=0.1)
    if t.chance(0.3):
        missing(run, proc, spec)
    else:
        failing(run, proc, spec)


def roles(spec):
    """Every use of a text encoding a specification names."""
    out = []
    for k, fs in spec.items():
        if k == "65" or (k == "h" and fs["max_len"] <= 0):
            continue
        if fs["data_enc"] in gen.TEXT:
            out.append((k, "data_enc"))
        if k not in ("t", "p", "1") and fs["len_type"] and fs["len_enc"] in gen.TEXT:
            out.append((k, "len_enc"))
    return out


def missing(run, proc, spec):
    """Encodings that do not exist."""
    t = run.t
    broken = copy.deepcopy(spec)
    for k, a in t.subset(roles(spec), 0.2) or t.subset(roles(spec), 0.5):
        broken[k][a] = t.pick(MISSING)
        run.fault("encoding_missing")
    for _ in range(1 + t.below(4)):
        doc = gen.gen_doc(t, spec, limit=gen.size(t, 60))
        try:
            s, enc, _ = model.encode(doc, spec)
        except model.Reject:
            continue
        run.mark(shape(spec, doc))
        out = call(proc.encode, dict(doc), broken)
        run.evals += 1
        try:
            model.encode(doc, broken)
            r = None
        except model.Reject as e:
            r = e
        judge(run, proc, "encode", doc, broken, out, r.field if r else None, (s, enc), enc)
        out = call(proc.decode, s, broken)
        run.evals += 1
        dec, denc = model.decode(s, spec)
        try:
            model.decode(s, broken)
            r = None
        except model.Reject as e:
            r = e
        judge(run, proc, "decode", s, broken, out, r.field if r else None, (dec, denc), denc)


def judge(run, proc, what, arg, spec, out, field, ordinary, parts):
    """field: the element whose use of the encoding failed, None if none did."""
    run.ev(what, field, "ok" if out.ok else out)
    say = lambda why: "%s(%s) under %s: %s" % (what, short(arg), short(describe_spec(spec, list(parts)), 800), why)
    if field is None:
        run.check(out.ok, "unaffected-failed", lambda: say("no encoding failed, yet it raised %r" % out))
        if what == "encode":
            same = bytes(out.value[0]) == ordinary[0] and enc_parts(out.value[1]) == ordinary[1]
        else:
            same = freeze(out.value[0]) == freeze(ordinary[0]) and enc_parts(out.value[1]) == ordinary[1]
        run.check(same, "unaffected-changed", lambda: say("result %s, ordinarily %s" % (
            short(out.value), short(ordinary))))
        return
    run.check(not out.ok, "not-reported", lambda: say("the encoding of %s failed, yet it returned %s" % (
        field, short(out.value))))
    ok = is_encode_error(proc, out) if what == "encode" else is_decode_error(proc, out)
    run.check(ok, "fatal", lambda: say("the encoding of %s failed and the caller got %s" % (field, out)))
    run.check(out.exc.field == field, "misnamed", lambda: say("the encoding of %s failed, the error names %r" % (
        field, out.exc.field)))
    got = enc_parts(out.exc.doc_enc) or {}
    for k in parts:
        if k == field:
            break
        run.check(got.get(k) == parts[k], "earlier-element-lost", lambda: say(
            "the encoding of %s failed; earlier element %s is reported as %s, should be %s" % (
                field, k, short(got.get(k)), short(parts[k]))))


def failing(run, proc, spec):
    """Encodings that fail at a chosen use."""
    t = run.t
    uses = {}
    plan = {}
    fired = []

    def on_use(op, name):
        n = uses.get(name, 0)
        uses[name] = n + 1
        p = plan.get(name)
        if p is None or n < p[0]:
            return None
        kind, make = p[1]
        if kind == "unknown" and op != "lookup":
            make = FAULTS[2][1]
        if kind == "bad" and op == "lookup":
            return None
        fired.append((name, op, kind))
        if make is None:
            return kind
        raise make()

    reg = seams.Registry(on_use)
    try:
        owner = {}
        simulated = copy.deepcopy(spec)
        for k, a in roles(spec):
            n = reg.name(spec[k][a], "%s%s" % (k, a[0]))
            simulated[k][a] = n
            owner[n] = k
        if not owner:
            return
        for _ in range(2 + t.below(5)):
            doc = gen.gen_doc(t, spec, limit=gen.size(t, 60))
            try:
                s, enc, _ = model.encode(doc, spec)
            except model.Reject:
                continue
            run.mark(shape(spec, doc))
            dec, denc = model.decode(s, spec)
            plan.clear()
            names = sorted(n for n in owner if owner[n] in enc) or sorted(owner)
            for n in {t.pick(names) for _ in range(1 + t.below(2))}:
                plan[n] = (uses.get(n, 0) + t.weighted([(4, 0), (2, 1), (1, 2)]), t.pick(FAULTS))
            run.ev("plan", sorted((n, p[0] - uses.get(n, 0), p[1][0]) for n, p in plan.items()))
            given = dict(doc)
            for what in ("encode", "decode") if t.chance(0.5) else ("decode", "encode"):
                del fired[:]
                out = call(proc.encode, given, simulated) if what == "encode" else call(proc.decode, s, simulated)
                run.evals += 1
                field = owner[fired[0][0]] if fired else None
                for name, op, kind in fired[:1]:
                    run.fault("codec_%s_%s" % (op, kind))
                judge(run, proc, what, doc if what == "encode" else s, spec, out, field,
                      (s, enc) if what == "encode" else (dec, denc), enc)
                if field is not None and t.chance(0.8):
                    # the encoding works again
                    saved = dict(plan)
                    plan.clear()
                    del fired[:]
                    again = anywhere(run, lambda: call(proc.encode, given, simulated) if what == "encode"
                                     else call(proc.decode, s, simulated), exc=out.exc)
                    run.evals += 1
                    run.probe("recovered")
                    judge(run, proc, what, doc if what == "encode" else s, spec, again, None,
                          (s, enc) if what == "encode" else (dec, denc), enc)
                    plan.update(saved)
    finally:
        reg.close()
