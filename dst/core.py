"""Shared pieces of every simulated run: outcomes, snapshots, comparison, the run context."""
import copy
import hashlib
import re

from . import lib
from .tape import Tape


class Violation(BaseException):
    """The property does not hold in this run."""

    def __init__(self, kind, msg):
        msg = re.sub("0x[0-9a-f]{6,}", "0x...", msg)      # addresses differ from process to process
        BaseException.__init__(self, kind, msg)
        self.kind = kind
        self.msg = msg


class StepBudget(BaseException):
    """A simulated call used more steps than any call could need."""


class Run:
    """Context of one simulated run: tape, event log, counters."""

    def __init__(self, tape, tier="quick", log=False):
        self.t = tape
        self.tier = tier
        self.logging = log
        self.events = []
        self.faults = {}       # fault kind -> times it actually fired
        self.probes = {}       # rare conditions reached
        self.evals = 0         # library calls judged
        self.sim = 0.0         # simulated seconds
        self.sig = []          # state / interleaving signature
        self.h = hashlib.blake2b(digest_size=8)
        self.steps = 0
        self.nontrivial = False

    def ev(self, *parts):
        """Event log (never draws from the tape)."""
        self.h.update(repr(parts).encode("utf-8", "backslashreplace"))
        if self.logging:
            self.events.append(" ".join(short(p) for p in parts))

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.nontrivial = True

    def probe(self, kind, n=1):
        self.probes[kind] = self.probes.get(kind, 0) + n

    def mark(self, *x):
        self.sig.append(x)

    def check(self, cond, kind, msg):
        if not cond:
            try:
                text = msg() if callable(msg) else msg
            except Exception as e:       # a strange outcome may be hard to describe
                text = "%s (no description: %r)" % (kind, e)
            raise Violation(kind, text)


def short(x, n=300):
    if isinstance(x, str):
        s = x
    else:
        s = repr(x)
    return s if len(s) <= n else s[:n] + "...(%d)" % len(s)


# ---------------------------------------------------------------- snapshots
def freeze(x):
    """Value snapshot comparable with ==, sensitive to types that == would blur."""
    c = type(x)
    if c is str or c is bytes or c is int or x is None or c is float or c is bool:
        return x
    if c is dict:
        return {k: freeze(v) for k, v in x.items()}
    if isinstance(x, (bytearray, memoryview)):
        return (c.__name__, bytes(x))
    if isinstance(x, (list, tuple)):
        return (c.__name__,) + tuple(freeze(v) for v in x)
    if isinstance(x, (str, bytes)):
        return (c.__name__, str(x) if isinstance(x, str) else bytes(x))
    if hasattr(x, "keys") and hasattr(x, "__getitem__"):
        return ("mapping", {k: freeze(x[k]) for k in x.keys()})
    return (c.__name__, repr(x))


def freeze_error(e):
    """Everything documented about an error, plus its text."""
    out = {"type": type(e).__name__, "text": str(e)}
    for a in ("msg", "field", "pos", "s", "doc_dec", "doc_enc"):
        if hasattr(e, a):
            out[a] = freeze(getattr(e, a))
    return out


class Out:
    """Outcome of one library call."""
    __slots__ = ("ok", "value", "exc")

    def __init__(self, ok, value, exc):
        self.ok = ok
        self.value = value
        self.exc = exc

    def frozen(self):
        if self.ok:
            return ("ok", freeze(self.value))
        return ("err", freeze_error(self.exc))

    def __repr__(self):
        if self.ok:
            return "ok " + short(self.value)
        return "%s(%s)" % (type(self.exc).__name__, short(str(self.exc)))


def call(f, *a, **k):
    """Run a library call; every exception it lets out is an outcome."""
    try:
        return Out(True, f(*a, **k), None)
    except (Violation, lib.SimDeadlock, StepBudget, SystemExit):
        raise
    except Hang:
        raise
    except BaseException as e:
        e.__traceback__ = None
        return Out(False, None, e)


class Hang(BaseException):
    """Raised by the watchdog."""


def enc_parts(doc_enc):
    """{element: (len, data)} from a library encoded dictionary (any malformation -> None)."""
    out = {}
    try:
        for k, v in doc_enc.items():
            if set(v.keys()) != {"len", "data"}:
                return None
            a, b = v["len"], v["data"]
            if type(a) is not bytes or type(b) is not bytes:
                return None
            out[k] = (a, b)
    except AttributeError:
        return None
    return out


def upper_doc(doc, spec):
    """Document as the receiver is expected to see it: numeric fields, h, t; binary in upper case."""
    out = {}
    for k, v in doc.items():
        if k in ("p", "1", "65"):
            continue
        if k == "h":
            if spec["h"]["max_len"] <= 0:
                continue
        elif k != "t" and not k.isnumeric():
            continue
        out[k] = v.upper() if spec[k]["data_enc"] == "b" else v
    return out


def strip_maps(doc):
    return {k: v for k, v in doc.items() if k not in ("p", "1")}


def diff(a, b, limit=400):
    """Short description of how two snapshots differ."""
    if isinstance(a, dict) and isinstance(b, dict):
        parts = []
        for k in list(a.keys()) + [k for k in b.keys() if k not in a]:
            if k not in a:
                parts.append("%r: missing, want %s" % (k, short(b[k], 120)))
            elif k not in b:
                parts.append("%r: unexpected %s" % (k, short(a[k], 120)))
            elif a[k] != b[k]:
                parts.append("%r: %s" % (k, diff(a[k], b[k], 200)))
        return "; ".join(parts)[:limit]
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return "; ".join(diff(x, y) for x, y in zip(a, b) if x != y)[:limit]
    return ("got %s, want %s" % (short(a, 160), short(b, 160)))[:limit]


def deep(x):
    return copy.deepcopy(x)


__all__ = [n for n in dir() if not n.startswith("_")]
