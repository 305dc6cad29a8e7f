"""C02: the wire format is exactly what the specification prescribes.

System: the library on one side, an independent implementation of the documented format on the other,
exchanging messages over a faulty link; the library's process restarts at other optimisation levels,
its clock and time zone jump, workers run under different hash seeds.  Every message must refine the
reference model in both directions, refusals included.
"""
import os
import time

from .. import gen, lib, model, world
from ..core import call, enc_parts, short, upper_doc, diff
from . import c11
from .common import lived, shape, describe_spec, buffer_of

ZONES = ["UTC", "Asia/Tokyo", "America/New_York", "XXX-13:30"]


def run(run):
    t = run.t
    state = {"proc": lived(run, lib.Process(0))}
    w = world.World(run)
    spec = gen.gen_spec(t, shipped=state["proc"].specs, big=t.chance(0.05), full=0.1, no1=0.03, nodesc=0.1)
    run.ev("spec", describe_spec(spec, spec))
    if t.chance(0.003):
        c11.soak(run, state["proc"], spec)
    link = world.Link(w, {"loss": t.pick([0, 0.1]), "dup": t.pick([0, 0.1]), "slow": 0.1, "latency": 0.01,
                          "jitter": True, "faults_on": lambda: True})

    def restart():
        state["proc"] = lib.Process(t.below(3))
        run.fault("process_restart")

    def jump():
        lib.CLOCK.t += t.pick([-86400.0 * 400, 3600.0, 1e9, -1.0, 0.5])
        run.fault("clock_jump")

    def zone():
        os.environ["TZ"] = t.pick(ZONES)
        time.tzset()
        run.fault("time_zone")

    def lib_sends():
        doc = gen.gen_doc(t, spec, limit=None if t.chance(0.25) else 600)
        if t.chance(0.3):
            spoil(t, spec, doc)
        s = judged_encode(run, state["proc"], spec, doc)
        if s is not None:
            link.send(peer_receives, (s, doc))

    def peer_receives(m):
        s, doc = m
        # the peer reads the library's message
        try:
            dec, enc = model.decode(s, spec)
        except model.Reject as r:
            run.check(False, "peer-cannot-read", "library sent %s for %s; the peer rejects it: %r" % (
                short(s), short(doc), r.args))
        want = upper_doc(doc, spec)
        got = {k: v for k, v in dec.items() if k not in ("p", "1")}
        run.check(got == want, "peer-reads-other", lambda: "peer reads %s: %s" % (short(s), diff(got, want)))
        lib_receives(s)
        if t.chance(0.5):
            peer_sends()

    def peer_sends():
        doc = gen.gen_doc(t, spec, limit=None if t.chance(0.25) else 600)
        try:
            s, enc, maps = model.encode(doc, spec)
        except model.Reject:
            return
        link.send(lib_receives, s)

    def lib_receives(s):
        try:
            want = model.decode(s, spec)
        except model.Reject:
            return
        out = call(state["proc"].decode, buffer_of(run, s), spec)
        run.evals += 1
        run.ev("library reads", s[:60], "ok" if out.ok else out)
        run.check(out.ok, "library-cannot-read", lambda: "decode(%s) under %s raised %r; it means %s" % (
            short(s), short(describe_spec(spec, want[0]), 900), out, short(want[0])))
        dec, enc = out.value
        run.check(dec == want[0], "library-reads-other", lambda: "decode(%s): %s" % (short(s), diff(dec, want[0])))
        run.check(enc_parts(enc) == want[1], "library-reads-other", lambda: "decode(%s) encoded parts: %s" % (
            short(s), diff(enc_parts(enc) or {}, want[1])))

    for i in range(3 + t.below(10)):
        w.after(0.005 * i, t.weighted([(6, lib_sends), (5, peer_sends), (1, restart), (1, jump), (1, zone)]))
    try:
        w.go()
    finally:
        if os.environ.get("TZ", "UTC") != "UTC":
            os.environ["TZ"] = "UTC"
            time.tzset()


def spoil(t, spec, doc):
    """Make the document doubtful: the model says whether it still fits."""
    keys = [k for k in doc if k in spec and k not in ("p", "1", "65")]
    how = t.below(5)
    if how <= 2 and keys:
        k = t.pick(keys)
        doc[k] = gen.gen_bad_value(t, spec[k])
    elif how == 3:
        doc[t.pick(["0", "193", "200", "1000", "02", "²", "64", "66", "130", "192", "99999999999999999999"])] = "1"
    elif keys:
        doc.pop(t.pick(keys))


def judged_encode(run, proc, spec, doc):
    """Encode with the library, compare with the model; bytes or None if both refuse."""
    given = dict(doc)
    out = call(proc.encode, given, spec)
    run.evals += 1
    run.nontrivial = True
    try:
        s, enc, maps = model.encode(doc, spec)
    except model.Reject as r:
        run.ev("refuse", doc, out)
        run.probe("refused: " + r.why)
        run.check(not out.ok, "accepted-unfit", lambda: "encode(%s) = %s; element %s does not fit (%s): %s" % (
            short(doc), short(out.value), r.field, r.why, short(spec.get(r.field), 400)))
        return None
    run.ev("library sends", s[:60])
    run.mark(shape(spec, doc))
    run.check(out.ok, "refused-fit", lambda: "encode(%s) under %s raised %r; it fits and is %s" % (
        short(doc), short(describe_spec(spec, doc), 900), out, short(s)))
    got = bytes(out.value[0])
    run.check(got == s, "wrong-bytes", lambda: "encode(%s) = %s, the format prescribes %s (%s)" % (
        short(doc), short(got), short(s), short(describe_spec(spec, doc), 600)))
    run.check(enc_parts(out.value[1]) == enc, "wrong-parts", lambda: "encode(%s) encoded parts: %s" % (
        short(doc), diff(enc_parts(out.value[1]) or {}, enc)))
    return s
