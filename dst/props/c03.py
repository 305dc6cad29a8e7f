"""C03: a torn or run-together message never passes for a whole one.

System: a sender, a byte stream without framing, and a receiver that tries to decode whatever has
arrived.  The stream delivers in arbitrary chunks, the connection dies at any byte, messages run into
each other, noise trails.  Invariant at every arrival: decode accepts exactly the whole messages.
"""
from .. import gen, words, world
from ..core import call, short
from .common import boot, good_messages, is_decode_error, shape, describe_spec

TAILS = [b"\x00", b" ", b"\n", b"\r\n", b"\x03", b"\xff", b"\x40", b"0", b"F", b"\x1a", b"\x00\x00", b"00"]


def run(run):
    t = run.t
    proc = boot(run)
    spec = gen.gen_spec(t, shipped=proc.specs, big=t.chance(0.03), nodesc=0.1)
    msgs = good_messages(run, proc, spec, 1 + t.below(4))
    if t.chance(0.25) and msgs:
        # a damaged message that is still acceptable counts as accepted too
        doc, s = msgs[0]
        s2 = world.corrupt(t, s, run, [m for _, m in msgs])
        msgs.append((doc, s2))
    if t.chance(0.15) and msgs and len(msgs[0][1]) > 0:
        # what is left of a message whose bitmap lost bits (fields silently dropped)
        doc, s = msgs[0]
        msgs.append((doc, world.corrupt(t, s, run, layout=[(0, min(len(s), 40))])))
    whole = []
    for doc, s in msgs:
        out = call(proc.decode, s, spec)
        run.evals += 1
        if out.ok:
            whole.append((doc, s, out.frozen()))
            run.mark(shape(spec, doc))
        else:
            run.probe("message_not_accepted")
    if not whole:
        return
    run.ev("spec", describe_spec(spec, list(whole[0][0])))
    for i, (doc, s, result) in enumerate(whole):
        run.ev("whole", i, len(s), s[:80])
        torn(run, proc, spec, s)
        extended(run, proc, spec, s, [w[1] for w in whole])
        again = call(proc.decode, s, spec)
        run.evals += 1
        run.check(again.frozen() == result, "intact-message-lost",
                  lambda: "intact message of %d bytes no longer decodes as before: %r" % (len(s), again))
    stream(run, proc, spec, whole)


def rejected(run, proc, spec, data, s, what):
    out = call(proc.decode, data, spec)
    run.evals += 1
    if out.ok:
        run.check(False, what + "-accepted", lambda: "%s accepted: whole message %s, received %s, result %s"
                  % (what, short(s), short(bytes(data)), short(out.value)))
    run.check(is_decode_error(proc, out), what + "-wrong-exception",
              lambda: "%s of %s: %s" % (what, short(s), out))


def torn(run, proc, spec, s):
    """The connection dies: at every byte of a small message, at many of a large one."""
    t = run.t
    n = len(s)
    if n <= 400:
        cuts = range(n)
    else:
        cuts = sorted(set(list(range(60)) + [n - 1, n - 2, n - 3] + [t.below(n) for _ in range(60)]))
    grow = bytearray() if t.chance(0.3) else None
    for c in cuts:
        if grow is not None:
            grow += s[len(grow):c]
            data = grow
        else:
            data = s[:c]
        rejected(run, proc, spec, data, s, "prefix")
    run.fault("connection_cut", len(cuts))


def extended(run, proc, spec, s, all_s):
    t = run.t
    tails = list(TAILS)
    for o in all_s:
        tails.append(o)
        if len(o) > 1:
            tails.append(o[:1 + t.below(len(o) - 1)])
            tails.append(o[-1:])
    tails.append(s[-(1 + t.below(8)):])
    for _ in range(3):
        n = 1 + t.below(9)
        tails.append(bytes(t.below(256) for _ in range(n)))
    tails.append(gen.slice_of(t, gen.NOISE, t.pick([16, 64, 256, 4096, 65536 if len(s) < 500 else 100])))
    tails.append(bytes([t.below(256)]) * (1 + t.below(40)))
    for w in words.TEXTS[:20]:
        w = w.encode("utf-8", "replace")
        tails += [w, w + bytes(1 + t.below(8)), w * 2]
    for x in tails:
        if x:
            rejected(run, proc, spec, s + x, s, "extension")
    run.fault("run_together", len(tails))


def stream(run, proc, spec, whole):
    """All messages back to back over one connection, delivered in chunks, cut somewhere."""
    t = run.t
    data = b"".join(s for _, s, _ in whole)
    ends = {}
    pos = 0
    for i, (_, s, r) in enumerate(whole):
        pos += len(s)
        ends[pos] = i
    limit = len(data)
    if t.chance(0.5):
        limit = t.below(len(data) + 1)
        run.fault("connection_cut")
    w = world.World(run)
    buf = bytearray()
    state = {"start": 0, "end": 0}

    def arrive(c):
        buf.extend(c)
        state["end"] += len(c)
        run.steps += 1
        nxt = min(e for e in ends if e > state["start"])
        i = ends[nxt]
        if state["end"] < nxt:
            rejected(run, proc, spec, buf, whole[i][1], "prefix")
        elif state["end"] > nxt:
            rejected(run, proc, spec, buf, whole[i][1], "extension")
        # the application's framing layer eventually learns where the message ends
        while True:
            later = [e for e in ends if e > state["start"]]
            if not later or state["end"] < min(later):
                break
            nxt = min(later)
            i = ends[nxt]
            one = bytes(buf[:nxt - state["start"]])
            del buf[:nxt - state["start"]]
            state["start"] = nxt
            out = call(proc.decode, one, spec)
            run.evals += 1
            run.ev("message", i, out)
            run.check(out.frozen() == whole[i][2], "intact-message-lost",
                      lambda: "message %d cut out of the stream does not decode as before: %r" % (i, out))

    at = 0.0
    for c in world.chunks(t, data[:limit], t.below(3) if len(data) < 400 else 2):
        at += 0.001 * (1 + t.below(20))
        w.after(at, arrive, c)
    w.go(max_events=20000)
