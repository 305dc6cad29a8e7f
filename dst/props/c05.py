"""C05: a decoding failure is located exactly.

System: as C04 (corrupting link, cuts, run-together frames, older receiver specification).  Every
rejection the library raises is compared with the reference model's: element, position, what was
recovered before it.
"""
import copy

from .. import gen, model, world
from ..core import call, enc_parts, short, freeze
from .common import boot, build, is_decode_error, shape, describe_spec, total, buffer_of


def run(run):
    t = run.t
    proc = boot(run)
    spec = gen.gen_spec(t, shipped=proc.specs, no1=0.03, nodesc=0.1)
    sender = spec
    if t.chance(0.3):
        sender = copy.deepcopy(spec)
        for n in gen.gen_numbers(t, 1 + t.below(3)):
            sender.setdefault(str(n), dict(gen.gen_field(t), desc="new"))
        run.fault("receiver_spec_older")
    if t.chance(0.2):
        # the two ends disagree about one field
        sender = copy.deepcopy(sender)
        k = t.pick(gen.defined(sender) or ["t"])
        if k != "t":
            sender[k] = dict(gen.gen_field(t), desc="other")
            run.fault("specs_disagree")
    if t.chance(0.12):
        spec = gen.exotic(t, spec, run)
    msgs = []
    for _ in range(1 + t.below(3)):
        doc = gen.gen_doc(t, sender, limit=gen.size(t, 300))
        s = build(run, proc, sender, doc)
        if s is not None:
            lay = []
            try:
                lay = world.layout_of(model.encode(doc, sender)[1], sender)
            except model.Reject:
                pass
            msgs.append((doc, s, lay))
    plain = [m[1] for m in msgs]
    run.ev("spec", describe_spec(spec, [k for k in spec if k in "htp1" or any(k in m[0] for m in msgs)]))
    for doc, s, lay in msgs:
        run.mark(shape(sender, doc))
        receive(run, proc, spec, s)
        # cut at every element boundary and around it, and elsewhere
        cuts = set()
        for off, size, _, _ in lay:
            cuts.update((off, off + 1, off + size - 1, off + size, off + size + 1))
        for _ in range(6):
            cuts.add(t.below(len(s) + 1))
        cuts.add(len(s) - 1)
        for c in sorted(cuts):
            if 0 <= c < len(s):
                run.fault("connection_cut")
                receive(run, proc, spec, s[:c])
        for tail in (b"\0", t.pick(plain)):
            run.fault("run_together")
            receive(run, proc, spec, s + tail)
    for i in range(4 + t.below(16)):
        if msgs and not t.chance(0.05):
            doc, s, lay = msgs[t.below(len(msgs))]
        else:
            s, lay = gen.slice_of(t, gen.NOISE, t.below(80)), []
            run.fault("noise_frame")
        for _ in range(t.weighted([(6, 1), (2, 2), (1, 3)])):
            s = world.corrupt(t, s, run, plain, spec=spec, layout=lay)
        receive(run, proc, spec, s)


def receive(run, proc, spec, s):
    out = call(proc.decode, buffer_of(run, s), spec)
    run.evals += 1
    run.ev("receive", s[:60], len(s), "ok" if out.ok else getattr(out.exc, "field", None),
           None if out.ok else getattr(out.exc, "pos", None))
    if out.ok or not is_decode_error(proc, out):
        return          # other properties judge these
    try:
        model.decode(s, spec)
    except model.Reject as e:
        r = e
    else:
        run.probe("rejected_whole")
        return          # C02 judges this: there is no element that cannot be read
    run.probe("reject: " + r.why)
    why = located(out.exc, s, r)
    run.check(why is None, "mislocated", lambda: "decode(%s) under %s: %s" % (
        short(s), short(describe_spec(spec, list(r.dec) + [r.field]), 800), why))


def located(e, s, r):
    if e.field != r.field:
        return "error names %r, first unreadable element is %r (%s)" % (e.field, r.field, r.why)
    if e.pos != r.pos:
        return "error at %r, element %s fails at %r (%s)" % (e.pos, r.field, r.pos, r.why)
    if freeze(bytes(e.s)) != bytes(s):
        return "s is not the input"
    parts = enc_parts(e.doc_enc)
    if parts is None:
        return "doc_enc malformed: %s" % short(e.doc_enc)
    if not isinstance(e.doc_dec, dict):
        return "doc_dec is not a dictionary"
    extra = r.why == "extra data"
    for k in r.enc:
        if k == r.field and not extra and k in ("p", "1"):
            continue        # second half of the extended bitmap: judged below
        if parts.get(k) != r.enc[k]:
            return "doc_enc[%r] is %s, the undamaged element is %s" % (k, short(parts.get(k)), short(r.enc[k]))
        if e.doc_dec.get(k) != r.dec[k]:
            return "doc_dec[%r] is %s, the undamaged element is %s" % (k, short(e.doc_dec.get(k)), short(r.dec[k]))
    allowed = set(r.enc) | {r.field}
    for k in list(parts) + list(e.doc_dec):
        if k not in allowed:
            return "reports %r although %r failed" % (k, r.field)
    t = total(parts)
    if not bytes(s).startswith(t):
        return "parts %r are not a prefix of the input" % t
    return None
