"""C06: encode refuses only with EncodeError, located exactly, and a refused document can be repaired.

System: applications assembling messages from records that arrive damaged, in several steps: defects
of every kind at any element, several at once; each refusal is repaired in place and tried again.
"""
from collections import OrderedDict

from .. import gen, lib, model
from ..core import call, enc_parts, short, freeze, diff
from .common import boot, is_encode_error, shape, describe_spec, total

ODD_KEYS = [gen.Duck(None), 5, None, (1, 2), b"2", True, 2.0, frozenset(), "0", "193", "200", "999", "02", "002", "²", "٢",
            "99999999999999999999", "½", "x", "", "-2", "2 ", "Ⅷ", "௧", "128", "129", "192", "64"]


def run(run):
    t = run.t
    proc = boot(run)
    spec = gen.gen_spec(t, shipped=proc.specs, no1=0.03, nodesc=0.1)
    strange = gen.exotic(t, spec, run) if t.chance(0.1) else None
    for _ in range(1 + t.below(4)):
        message(run, proc, spec, strange)


def message(run, proc, spec, strange=None):
    t = run.t
    doc = gen.gen_doc(t, spec, limit=gen.size(t, 400))
    run.mark(shape(spec, doc))
    good = dict(doc)
    defects = []
    for _ in range(t.weighted([(4, 1), (3, 2), (2, 4), (1, 0)])):
        keys = [k for k in doc if k in spec and k not in ("p", "1", "65")]
        how = t.weighted([(6, "value"), (2, "key"), (2, "undefined"), (1, "no type"), (1, "no header"),
                          (2, "many")])
        if how == "value" and keys:
            k = t.pick(keys)
            doc[k] = gen.gen_bad_value(t, spec[k])
        elif how == "key":
            k = t.pick(ODD_KEYS)
            doc[k] = t.pick(["1", "", "0200", None, 7])
        elif how == "undefined":
            k = str(2 + t.below(191))
            if k in spec:
                continue
            doc[k] = t.pick(["1", "", None])
        elif how == "no type":
            k = "t"
            doc.pop("t", None)
        elif how == "no header":
            k = "h"
            doc.pop("h", None)
        else:
            for k in keys:
                if t.chance(0.3):
                    doc[k] = gen.gen_bad_value(t, spec[k])
                    defects.append(k)
                    run.fault("defect_value")
            continue
        defects.append(k)
        run.fault("defect_" + how.replace(" ", "_"))
    if t.chance(0.3):
        items = t.shuffle(list(doc.items()))
        doc.clear()
        doc.update(items)
    run.ev("document", doc, "defects", defects)
    if strange is not None:
        spec = strange
        for k in list(good):
            try:
                model.encode_element(good[k], spec[k], k)
            except (model.Reject, KeyError):
                good.pop(k)
    if t.chance(0.05):
        doc = OrderedDict(doc)
    refused = 0
    for attempt in range(len(defects) + 3):
        before = others(doc)
        out = call(proc.encode, doc, spec)
        run.evals += 1
        try:
            s, enc, maps = model.encode(dict(doc), spec)
            r = None
        except model.Reject as e:
            r = e
        if out.ok:
            if refused and r is None:
                run.probe("repaired")
                fresh = call(lib.Process(0).encode, {k: v for k, v in doc.items() if k not in ("p", "1", "65")},
                             spec)
                run.check(fresh.ok and bytes(fresh.value[0]) == bytes(out.value[0]) and
                          freeze(fresh.value[1]) == freeze(out.value[1]), "repair-differs",
                          lambda: "after %d refusals encode gives %r, a fresh document gives %r" % (
                              refused, out, fresh))
            break
        refused += 1
        run.ev("refused", out)
        run.check(is_encode_error(proc, out), "crash", lambda: "encode(%s) under %s raised %s" % (
            short(doc), short(describe_spec(spec, [k for k in doc if isinstance(k, str)]), 700), out))
        why = located(out.exc, doc, r)
        if r is not None:
            run.probe("refuse: " + r.why)
        run.check(why is None, "mislocated", lambda: "encode(%s) under %s: %s" % (
            short(doc), short(describe_spec(spec, [k for k in doc if isinstance(k, str)]), 700), why))
        run.check(others(doc) == before, "document-damaged", lambda: "encode(%s) changed the document: %s" % (
            short(before), diff(others(doc), before)))
        # repair what the error names
        k = r.field
        if k == "p":
            for x in [x for x in doc if x not in good]:
                del doc[x]
        elif k in good:
            doc[k] = good[k]
        else:
            doc.pop(k, None)
        if defects and refused > 1 and t.chance(0.2):
            doc.pop(k, None) if k not in ("t", "h") else None


def others(doc):
    return {k: freeze(v) for k, v in doc.items() if k not in ("p", "1", "65")}


def located(e, doc, r):
    if r is None:
        return "nothing is wrong, yet the error names %r" % (e.field,)
    if e.field != r.field or type(e.field) is not str:
        return "error names %r, first offending element is %r (%s)" % (e.field, r.field, r.why)
    if e.doc_dec is not doc:
        return "doc_dec is not the caller's dictionary"
    parts = enc_parts(e.doc_enc)
    if parts is None:
        return "doc_enc malformed: %s" % short(e.doc_enc)
    for k in r.enc:
        if k == r.field and k in ("p", "1"):
            continue
        if parts.get(k) != r.enc[k]:
            return "doc_enc[%r] is %s, a successful call gives %s" % (k, short(parts.get(k)), short(r.enc[k]))
    for k in parts:
        if k not in r.enc and k != r.field:
            return "doc_enc reports %r although %r failed" % (k, r.field)
    return None
