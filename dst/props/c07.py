"""C07: a reused message dictionary carries no stale state.

System: an application that keeps one dictionary per conversation and edits it between sends: messages
decoded or encoded before, under one of two specifications, refused half way, interrupted half way.
At each send the outcome must be that of a fresh dictionary in a fresh process.
"""
from collections import OrderedDict

from .. import gen, lib
from ..core import call, enc_parts, short, freeze, diff
from ..sched import Tracer, count_points
from .common import boot, shape, describe_spec, total

JUNK = ["", "spam", "FFFFFFFFFFFFFFFF", "0000000000000000", "C000000000000001" * 2, None, 5, {}, "8" * 16]


def run(run):
    t = run.t
    proc = boot(run)
    specs = [gen.gen_spec(t, shipped=proc.specs, full=0.03, nodesc=0.1)]
    if t.chance(0.5):
        specs.append(gen.gen_spec(t))
    else:
        # same fields, other coding
        specs.append({k: dict(v, **({"data_enc": "cp500"} if v["data_enc"] == "ascii" else {}))
                      for k, v in specs[0].items()})
    doc = gen.gen_doc(t, specs[0], limit=gen.size(t, 200))
    if t.chance(0.1):
        doc = OrderedDict(doc)
    for step in range(3 + t.below(10)):
        spec = specs[t.weighted([(3, 0), (1, 1)])]
        op = t.weighted([(6, "edit"), (2, "junk"), (1, "spoil"), (1, "decoded"), (1, "interrupt"), (3, "none")])
        run.ev(op)
        if op == "edit":
            edit(t, spec, doc)
        elif op == "junk":
            for k in t.subset(["p", "1", "65"], 0.6):
                doc[k] = t.pick(JUNK)
                run.fault("stale_bitmap")
        elif op == "spoil":
            keys = [k for k in doc if k in spec]
            if keys:
                k = t.pick(keys)
                doc[k] = gen.gen_bad_value(t, spec[k])
                run.fault("unfit_value")
        elif op == "decoded":
            got = call(proc.encode, gen.gen_doc(t, spec, limit=100), spec)
            if got.ok:
                back = call(proc.decode, got.value[0], spec)
                if back.ok:
                    doc = back.value[0]
                    if t.chance(0.4):
                        edit(t, spec, doc)
        elif op == "interrupt":
            interrupt(run, proc, doc, spec)
        send(run, proc, doc, spec)
        if op == "spoil" and t.chance(0.7):
            # repair everything unfit under this specification
            fresh = gen.gen_doc(t, spec, p=0.3, extra=False, limit=100)
            for k in [k for k in doc if k not in fresh]:
                if t.chance(0.7):
                    del doc[k]
            doc.update(fresh)
            send(run, proc, doc, spec)


def edit(t, spec, doc):
    for _ in range(1 + t.below(4)):
        how = t.below(4)
        keys = [k for k in doc if isinstance(k, str) and k.isdecimal()]
        if how == 0 and keys:
            del doc[t.pick(keys)]
        elif how == 1:
            if spec["h"]["max_len"] > 0:
                v = gen.gen_value(t, spec["h"])
                doc["h"] = gen.fallback(spec["h"]) if v is None else v
            doc["t"] = gen.gen_type(t, spec)
        elif how == 3 and t.chance(0.5):
            # drop everything above a bitmap boundary
            top = t.pick([64, 128, 1])
            for k in keys:
                if len(k) < 4 and int(k) > top:
                    del doc[k]
        else:
            d = gen.defined(spec)
            if d:
                k = t.pick(d)
                v = gen.gen_value(t, spec[k], 200)
                if v is not None:
                    doc[k] = v


def plain(doc):
    return {k: v for k, v in doc.items() if k not in ("p", "1", "65")}


def interrupt(run, proc, doc, spec):
    t = run.t
    n, _ = count_points(proc.encode, dict(doc), spec)
    at = t.below(max(1, n))

    def strike(frame):
        raise KeyboardInterrupt

    before = freeze(plain(doc))
    tr = Tracer(at=at, action=strike, strike=True)
    out = tr.call(proc.encode, doc, spec)
    run.steps += tr.n
    if tr.where is not None:
        run.fault("interrupted_half_way")
    run.check(freeze(plain(doc)) == before, "other-key-changed", lambda: "interrupted encode changed the document: %s"
              % diff(freeze(plain(doc)), before))


def send(run, proc, doc, spec):
    before = freeze(plain(doc))
    fresh_doc = dict(plain(doc))
    given = short(dict(doc))
    out = call(proc.encode, doc, spec)
    run.evals += 1
    run.nontrivial = True
    fresh = call(lib.Process(0).encode, fresh_doc, spec)
    run.ev("send", given, "ok" if out.ok else out)
    run.check(freeze(plain(doc)) == before, "other-key-changed", lambda: "encode(%s) changed the document: %s" % (
        given, diff(freeze(plain(doc)), before)))
    run.check(out.ok == fresh.ok, "stale-state", lambda: "encode of the reused dictionary %s: %r; of a fresh one: %r" % (
        given, out, fresh))
    if out.ok:
        s, enc = out.value
        run.mark(shape(spec, doc))
        run.check(bytes(s) == bytes(fresh.value[0]) and freeze(enc) == freeze(fresh.value[1]), "stale-state",
                  lambda: "encode of the reused dictionary %s gives %s; of a fresh one %s" % (
                      given, short(bytes(s)), short(bytes(fresh.value[0]))))
        maps = bitmaps(enc, spec)
        run.check(maps is not None and doc.get("p") == maps[:16] and (doc["1"] == maps[16:] if maps[16:] else "1" not in doc)
                  and "65" not in doc, "wrong-bitmap-keys",
                  lambda: "after encode(%s): p=%r 1=%r 65=%r; bitmaps sent: %r" % (
                      given, doc.get("p"), doc.get("1"), doc.get("65"), maps))
    else:
        a, b = out.exc, fresh.exc
        run.check(type(a).__name__ == type(b).__name__ and getattr(a, "field", None) == getattr(b, "field", None)
                  and freeze(getattr(a, "doc_enc", None)) == freeze(getattr(b, "doc_enc", None)), "stale-state",
                  lambda: "refusing the reused dictionary %s: %r %s; a fresh one: %r %s" % (
                      given, out, short(getattr(a, "doc_enc", None)), fresh, short(getattr(b, "doc_enc", None))))


def bitmaps(enc, spec):
    """Upper-case hex of the bitmap bytes sent."""
    out = ""
    try:
        for k in ("p", "1"):
            if k in enc:
                b = enc[k]["data"]
                out += b.hex().upper() if spec[k]["data_enc"] == "b" else b.decode(spec[k]["data_enc"])
    except Exception:
        return None
    return out
