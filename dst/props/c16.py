"""C16: messages stored as JSON survive a restart.

System: a store-and-forward process that writes every message and its specification as JSON to a disk
which loses or tears unsynced writes in a crash, and the process that takes over after the restart.
"""
import json

from .. import gen, lib, seams, model
from ..core import call, enc_parts, freeze, short, diff, upper_doc
from .common import boot, lived, shape, describe_spec


def run(run):
    t = run.t
    proc = boot(run)
    spec = gen.gen_spec(t, shipped=proc.specs, desc=t.chance(0.5), full=0.08, nodesc=0.1)
    other = gen.sibling(t, spec)        # the network messages are forwarded to
    style = {"ensure_ascii": t.chance(0.5), "sort_keys": t.chance(0.5)}
    if t.chance(0.2):
        style["separators"] = (",", ":")
    disk = seams.Disk()
    disk.append((json.dumps([spec, other], **style) + "\n").encode("utf-8", "surrogatepass"))
    disk.sync()
    stored = []            # (bytes sent or received for record i, its line, how it would be forwarded)
    traffic = []           # (bytes, outcome in the process that crashed)
    for gen_no in range(1 + t.below(3)):
        for _ in range(1 + t.below(6)):
            handle(run, proc, spec, other, style, disk, stored, traffic)
        # crash, restart
        run.fault("crash")
        data = disk.crash(t, run.fault)
        proc = lived(run, lib.Process(t.weighted([(4, 0), (1, 1), (1, 2)])))
        spec, other = recover(run, proc, data, stored, traffic)
        # start a clean journal, as a recovering process would
        disk = seams.Disk()
        disk.append((json.dumps([spec, other], **style) + "\n").encode("utf-8", "surrogatepass"))
        disk.sync()
        stored = []
        traffic = traffic[-4:]


def handle(run, proc, spec, other, style, disk, stored, traffic):
    """Send or receive one message; store its document."""
    t = run.t
    doc = gen.gen_doc(t, spec, limit=None if t.chance(0.1) else 300)
    out = call(proc.encode, doc, spec)
    run.evals += 1
    if not out.ok:
        return
    s = bytes(out.value[0])
    run.mark(shape(spec, doc))
    if t.chance(0.5):
        record = doc                             # the dictionary encode left behind
    else:
        got = call(proc.decode, s, spec)
        run.evals += 1
        if not got.ok:
            return
        record = got.value[0]
    if t.chance(0.4):
        cut = bytearray(s)
        if t.chance(0.5) and cut:
            cut[t.below(len(cut))] = t.below(256)
        res = call(proc.decode, bytes(cut), spec)
        run.evals += 1
        traffic.append((bytes(cut), res.frozen()))
    line = call(json.dumps, record, **style)
    run.check(line.ok, "not-json", lambda: "document %s cannot be stored as JSON: %r" % (short(record), line))
    run.ev("store", s[:60], line.value[:100])
    disk.append((line.value + "\n").encode("utf-8", "surrogatepass"))
    forwarded = call(proc.encode, dict(record), other)
    run.evals += 1
    stored.append((s, line.value, forwarding(forwarded)))
    if t.chance(0.5):
        disk.sync()


def forwarding(out):
    if out.ok:
        return ("sent", bytes(out.value[0]), freeze(out.value[1]))
    return (type(out.exc).__name__, str(out.exc), freeze(getattr(out.exc, "doc_enc", None)))


def recover(run, proc, data, stored, traffic):
    text = data.decode("utf-8", "ignore")
    lines = text.split("\n")
    whole, tail = lines[:-1], lines[-1]
    spec, other = json.loads(whole[0])
    if tail:
        run.fault("torn_record")
        # a record cut short must not come back as a message: JSON itself shows the cut unless only
        # the line end was lost
        torn = call(json.loads, tail)
        if torn.ok:
            whole = whole + [tail]
    n = len(whole) - 1
    run.check(n <= len(stored), "invented-record", "more records recovered than stored")
    for i in range(n):
        s, line, forwarded = stored[i]
        doc = json.loads(whole[1 + i])
        out = call(proc.encode, doc, spec)
        run.evals += 1
        run.ev("recovered", i, "ok" if out.ok else out)
        run.check(out.ok, "record-lost", lambda: "stored message %s no longer encodes after the restart: %r (%s)" % (
            short(line), out, short(describe_spec(spec, doc), 600)))
        run.check(bytes(out.value[0]) == s, "record-changed", lambda: "stored message %s encodes to %s, before the crash %s"
                  % (short(line), short(bytes(out.value[0])), short(s)))
        again = forwarding(call(proc.encode, json.loads(whole[1 + i]), other))
        run.evals += 1
        run.check(again == forwarded, "forwarded-differently", lambda: "stored message %s forwarded under %s: before "
                  "the crash %s, after %s" % (short(line), short(describe_spec(other, doc), 600), short(forwarded),
                                              short(again)))
        run.probe("record_recovered")
        run.nontrivial = True
    for s, then in traffic:
        out = call(proc.decode, s, spec)
        run.evals += 1
        run.check(out.frozen() == then, "traffic-differs", lambda: "decode(%s): before the crash %s, after %s" % (
            short(s), short(then, 400), short(out.frozen(), 400)))
    return spec, other
