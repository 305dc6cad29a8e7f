"""C12: a failing output stream loses nothing but its own tail.

System: an application tracing messages to streams that fill up, break, get closed, answer oddly or are
replaced (sys.stdout) between calls.  Compared with what the same call writes to a healthy stream.
"""
import copy
import errno
import sys

from .. import gen, lib, seams
from ..core import call, freeze, short, diff
from .common import boot, shape
from . import ops
from .c09 import anywhere


class Broken(Exception):
    pass


class Stop(BaseException):
    pass


FAILURES = [lambda: OSError(errno.ENOSPC, "No space left on device"),
            lambda: BrokenPipeError(errno.EPIPE, "Broken pipe"),
            lambda: ValueError("I/O operation on closed file."),
            lambda: UnicodeEncodeError("ascii", "é", 0, 1, "ordinal not in range(128)"),
            lambda: BlockingIOError(errno.EAGAIN, "would block"),
            lambda: InterruptedError(errno.EINTR, "interrupted"),
            lambda: KeyboardInterrupt(),
            lambda: MemoryError(),
            lambda: Broken("custom"),
            lambda: Stop("custom"),
            lambda: TypeError("write() argument must be bytes"),
            lambda: AttributeError("write"),
            lambda: KeyError("fd"),
            lambda: IndexError("slot"),
            lambda: LookupError("codec"),
            lambda: RuntimeError("reentrant call"),
            lambda: StopIteration(),
            lambda: GeneratorExit(),
            lambda: EOFError("closed")]


class Falsy(seams.Stream):
    """A stream whose truth value is false (an empty in-memory log)."""

    def __bool__(self):
        return False


def run(run):
    t = run.t
    proc = boot(run)
    spec = gen.gen_spec(t, shipped=proc.specs, nfields=t.pick([2, 5, 12]), desc=True)
    real_stdout = sys.stdout
    try:
        for _ in range(2 + t.below(5)):
            one(run, proc, spec)
    finally:
        sys.stdout = real_stdout


def printable(run, proc, spec):
    t = run.t
    op = ops.gen_calls(t, spec, 1, proc, limit=t.pick([20, 80, 300]), kinds=("pp",))[0]
    if t.chance(0.15):
        # what an error reports about a half-read message
        s = call(proc.encode, dict(gen.gen_doc(t, spec, limit=60)), spec)
        if s.ok and len(s.value[0]):
            out = call(proc.decode, bytes(s.value[0])[:t.below(len(s.value[0]))], spec)
            if not out.ok and hasattr(out.exc, "doc_enc"):
                doc = out.exc.doc_enc if t.chance(0.5) else out.exc.doc_dec
                return ("pp", doc, op[2], op[3])
    return op


def one(run, proc, spec):
    t = run.t
    op = printable(run, proc, spec)
    doc, dw, lw = op[1], op[2], op[3]
    healthy = seams.Stream()
    out = call(proc.pp, doc, spec, dw, healthy, lw)
    run.evals += 1
    if not out.ok:
        run.probe("not_printable")
        return
    full = healthy.text()
    n = len(healthy.writes)
    run.mark(len(full), n)
    run.check(not healthy.foreign, "uses-more-than-write", lambda: "pp asked the stream for %s" % healthy.foreign)
    ats = set(range(n + 1)) if n <= 12 else {0, 1, 2, n - 1, n} | {t.below(n) for _ in range(6)}
    frozen = freeze([doc, spec])
    for at in sorted(ats):
        exc = t.pick(FAILURES)()
        cls = Falsy if t.chance(0.2) else seams.Stream
        st = cls(fail_at=at if at < n else None, exc=exc, ret=t.below(5))
        stdout = None
        if t.chance(0.25):
            stdout = seams.Stream()
            sys.stdout = stdout
        default = t.chance(0.25)
        if default:
            sys.stdout = st
            out = call(proc.pp, doc, spec, desc_width=dw, line_width=lw)
        elif t.chance(0.5):
            out = call(proc.pp, doc, spec, dw, st, lw)
        else:
            out = call(proc.pp, doc, spec, desc_width=dw, stream=st, line_width=lw)
        sys.stdout = sys.__stdout__
        run.evals += 1
        text = st.text()
        what = "%s (write %d of %d, default stream: %s)" % (type(exc).__name__, at, n, default)
        run.ev("print", what, out)
        if stdout is not None and not default:
            run.check(not stdout.writes, "wrong-stream", lambda: "output for the given stream went to sys.stdout: %s"
                      % short(stdout.text()))
        if at < n:
            run.fault("stream_" + type(exc).__name__)
            if st.after == 0:
                # fewer writes than the healthy stream saw: then nothing may have been lost
                run.check(out.ok and text == full, "lost", lambda: "%s: wrote %s instead of %s, outcome %r" % (
                    what, short(text), short(full), out))
                continue
            run.check(not out.ok and out.exc is exc, "swallowed", lambda: "%s: the caller got %r" % (what, out))
            run.check(st.after == 1, "writes-after-failure", lambda: "%s: %d writes after the failing one" % (
                what, st.after - 1))
            run.check(full.startswith(text), "not-a-prefix", lambda: "%s: wrote %s, a healthy stream gets %s" % (
                what, short(text), short(full)))
        else:
            run.check(out.ok and text == full, "lost", lambda: "healthy stream answering %r got %s instead of %s, %r" % (
                st.ret, short(text), short(full), out))
        run.check(not st.foreign, "uses-more-than-write", lambda: "pp asked the stream for %s" % st.foreign)
        run.check(freeze([doc, spec]) == frozen, "argument-changed", lambda: "%s: %s" % (
            what, diff(freeze([doc, spec]), frozen)))
        if t.chance(0.5):
            again = seams.Stream()
            out = anywhere(run, lambda: call(proc.pp, doc, spec, dw, again, lw), exc=out.exc)
            run.evals += 1
            run.check(out.ok and again.text() == full, "next-call-incomplete",
                      lambda: "after %s the next call wrote %s instead of %s (%r)" % (
                          what, short(again.text()), short(full), out))
