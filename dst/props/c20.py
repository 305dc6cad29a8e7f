"""C20: a long-lived process keeps nothing of the messages it has handled.

System: one process that lives through tens of thousands of calls - messages exchanged, refused,
damaged, printed, interrupted, under one specification or under ever new copies of it.  What the
library still holds between calls (everything reachable from its modules) must not grow for ever.
"""
import atexit
import builtins
import copy
import copyreg
import gc
import linecache
import logging
import pickle
import random
import sys
import types
import warnings

from .. import gen, lib, model, seams
from ..core import call, short
from ..sched import Tracer, elsewhere
from .common import boot, shape
from . import ops

FIRST = 64
LAST = 1 << 16
CPU_LIMIT = 90


# ------------------------------------------------------------------ what the library holds
def held(proc):
    """(objects, bytes, bytes of the largest sequence) reachable from the library's modules."""
    mods = [m for k, m in sys.modules.items() if k == lib.PKG or k.startswith(lib.PKG + ".")]
    spaces = {id(m.__dict__) for m in mods}
    skip = {id(m.__dict__) for k, m in sys.modules.items() if m is not None and id(m.__dict__) not in spaces
            and hasattr(m, "__dict__")}
    seen = set()
    todo = [v for m in mods for v in m.__dict__.values()]
    size = largest = 0
    getsize = sys.getsizeof
    while todo:
        o = todo.pop()
        i = id(o)
        if i in seen or i in skip:
            continue
        seen.add(i)
        if isinstance(o, types.ModuleType):
            continue
        if isinstance(o, type):
            if not str(getattr(o, "__module__", "")).startswith(lib.PKG):
                continue
        elif isinstance(o, types.FunctionType):
            if id(o.__globals__) not in spaces:
                continue
        elif isinstance(o, types.CodeType):
            continue
        elif isinstance(o, (types.BuiltinFunctionType, types.GetSetDescriptorType, types.MemberDescriptorType)):
            continue
        try:
            n = getsize(o)
        except Exception:
            n = 0
        size += n
        if n > largest and not isinstance(o, (dict, set, frozenset)):
            largest = n
        todo.extend(gc.get_referents(o))
    more = 0
    for r in REGISTRIES:
        for k in list(r):
            more += 1
            size += getsize(k) + 64
    more += atexit._ncallbacks()
    size += 64 * atexit._ncallbacks()
    return len(seen) + more, size, largest


# where a library could leave something outside its own modules
REGISTRIES = [logging.root.manager.loggerDict, logging._handlers, warnings.filters, sys.modules, sys.path, gc.garbage,
              gc.callbacks, copyreg.dispatch_table, copyreg._extension_registry, linecache.cache, builtins.__dict__,
              sys.path_importer_cache, sys.meta_path, sys.path_hooks]


def blocks():
    """All the memory of the process in blocks: also what is held by something nobody thought of."""
    gc.collect()
    return sys.getallocatedblocks()


# ------------------------------------------------------------------ ever new calls
def refill(v, i):
    """Another value of the same length, never seen before if it is long enough."""
    n = len(v)
    if n > 40:
        return "%020d" % (i * 2654435761 % 10 ** 20) + v[20:]
    return str(i * 2654435761 % (1 << 64) + 10 ** 19)[-n:] if n else v


def vary(rnd, doc, i, spec, drop, types):
    out = {}
    for j, (k, v) in enumerate(doc.items()):
        if drop and j > 2 and k.isdecimal() and rnd.random() < 0.4:
            continue
        if k == "t" and types and type(v) is str and len(v) == 4:
            out[k] = "%04X" % (i * 40503 & 0xFFFF)
        elif k == "t" or type(v) is not str or k in ("p", "1", "65"):
            out[k] = v
        elif len(v) > 8 and j & 1:
            # what made the value special stays
            out[k] = v[:-8] + str(i * 2654435761 % (1 << 62) + 10 ** 9)[-8:]
        elif len(v) <= 20:
            out[k] = str(i * 2654435761 + j * 977)[-len(v):].rjust(len(v), "0") if v else v
        else:
            out[k] = refill(v, i + j)
    return out


def edited(spec, i, what):
    """The specification as the i-th participant would have it."""
    out = {k: dict(v) for k, v in spec.items()}
    keys = [k for k in out if k not in ("h", "p", "1", "t")]
    if keys:
        fs = out[keys[i % len(keys)]]
        if "name" in what:
            fs["data_enc"] = "codec%d" % i
        if "len" in what:
            fs["len_enc"] = "codec-%d" % i
        if "limit" in what:
            fs["max_len"] += i
        if "type" in what:
            fs["len_type"] = i % 90
        if "desc" in what:
            fs["desc"] = "Field of participant %d" % i
    return out


class Life:
    """The application of a long-lived process: makes its i-th call from a few templates."""

    def __init__(self, run, proc):
        t = run.t
        self.run = run
        self.proc = proc
        wide = t.chance(0.25)
        self.spec = gen.gen_spec(t, nfields=t.pick([8, 12]) if wide else t.pick([1, 2, 3]))
        if t.chance(0.05):
            self.spec = proc.specs.default_ascii
        if t.chance(0.1):
            self.spec = gen.exotic(t, self.spec, run)
        self.churn = t.weighted([(6, "same"), (3, "copied"), (1, "readonly"), (1, "edited")])
        self.edits = [x for x in ("name", "len", "desc", "limit", "type") if t.chance(0.4)] or ["name"]
        self.templates = []
        for _ in range(1 + t.below(5)):
            kind = t.pick(["encode", "decode", "pp", "both", "bad", "torn", "noise"])
            doc = gen.gen_doc(t, self.spec, p=t.pick([0.9, 0.5]), limit=t.weighted([(4, 6), (4, 14), (3, 40), (2, 300)]),
                              most=700)
            if kind == "bad":
                keys = [k for k in doc if k in self.spec]
                k = t.pick(keys)
                how = t.below(6)
                if how == 0:
                    doc["191"] = "1"
                elif how == 4:
                    doc["unknown"] = "1"
                elif how == 5:
                    doc["invalid"] = "1"
                elif how == 1:
                    del doc[k]
                else:
                    doc[k] = gen.gen_bad_value(t, self.spec[k])
            self.templates.append((kind, doc, t.chance(0.5), t.below(4), t.pick([30, 8, 0]), t.pick([80, 24, 7])))
        self.strike = t.weighted([(7, 0), (1, 8), (1, 16)])
        self.at = t.below(400)
        self.ship = t.chance(0.15)          # errors are sent to a supervisor
        self.full = t.chance(0.1)           # streams fill up
        self.threads = t.weighted([(12, 0), (1, 1), (1, 8)])      # ever new threads
        self.types = t.chance(0.2)
        self.widths = t.chance(0.12)        # traces of ever different widths
        self.rnd = random.Random(t.below(1 << 20))
        run.mark(self.churn, [x[0] for x in self.templates], shape(self.spec, doc))
        run.ev("life", self.churn, self.strike, self.templates)
        if self.churn != "same":
            run.fault("specification_copied")

    def stream(self):
        if self.full:
            self.run.faults["stream_fails"] = self.run.faults.get("stream_fails", 0) + 1
            return seams.Stream(fail_at=self.i % 9, exc=OSError("disk full"))
        return seams.Stream()

    def call(self, f, *a):
        out = self.attempt(f, *a)
        if self.ship and not out.ok and not isinstance(out.exc, (KeyboardInterrupt, OSError)):
            if self.i & 1:
                copy.copy(out.exc)
            else:
                pickle.loads(pickle.dumps(out.exc))
        return out

    def attempt(self, f, *a):
        if self.strike and not self.i % self.strike:
            def action(frame):
                self.run.faults["interrupt"] = self.run.faults.get("interrupt", 0) + 1
                raise KeyboardInterrupt("stop")
            return Tracer(at=self.rnd.randrange(self.at + 1), action=action, strike=True).call(f, *a)
        return call(f, *a)

    def step(self, i):
        self.i = i
        run, proc, rnd = self.run, self.proc, self.rnd
        kind, doc, drop, how, dw, lw = self.templates[i % len(self.templates)]
        spec = self.spec
        if self.widths:
            dw, lw = dw + i % 211, lw + i
        if self.churn == "copied":
            spec = {k: dict(v) for k, v in spec.items()}
        elif self.churn == "readonly":
            spec = seams.wrap_spec(spec)
        elif self.churn == "edited":
            spec = edited(spec, i, self.edits)
        doc = vary(rnd, doc, i, spec, drop, self.types)
        if "unknown" in doc:
            doc["x%d" % i] = doc.pop("unknown")
        if "invalid" in doc:
            doc[str(193 + i) if how else i] = doc.pop("invalid")
        run.evals += 1
        if kind in ("encode", "bad"):
            self.call(proc.encode, doc, spec)
        elif kind == "pp":
            self.call(proc.pp, {k: v for k, v in doc.items() if k in spec}, spec, dw, self.stream(), lw)
        elif kind == "noise":
            self.call(proc.decode, rnd.randbytes(rnd.randrange(40)), spec)
        else:
            out = self.call(proc.encode, doc, spec)
            if not out.ok:
                return
            s = out.value[0]
            if kind == "torn":
                k = rnd.randrange(len(s) + 1)
                s = (s[:k], s + b"0", s[:k] + b"\xff" + s[k:], s[:k] + s[k + 1:])[how]
            if how & 1:
                s = bytes(s)
            out = self.call(proc.decode, s, spec)
            if kind == "both" and out.ok:
                self.call(proc.pp, out.value[1], spec, dw, self.stream(), lw)
                self.call(proc.encode, out.value[0], spec)


def run(run):
    proc = boot(run)
    life = Life(run, proc)
    gc.collect()
    i, upto = 0, FIRST
    sizes = []
    while True:
        i = live(life, i, upto)
        sizes.append(held(proc))
        run.ev("held after", upto, *sizes[-1])
        if settled(sizes):
            break
        if upto == LAST >> 6:
            # still growing: which kind of call does it?  Go on with that one only.
            growth = []
            templates = life.templates
            for tpl in templates:
                life.templates = [tpl]
                before = held(proc)[1]
                i = live(life, i, i + 256)
                growth.append(held(proc)[1] - before)
            life.templates = [templates[growth.index(max(growth))]]
            run.ev("growth by kind of call", growth)
            suspect(run, proc, life, i, sizes)
            break
        upto *= 2
    run.steps += i
    elsewhere_held(run, life, i)
    run.nontrivial = True


def elsewhere_held(run, life, i):
    """What is kept neither in the library's modules nor in a registry known to keep things."""
    if life.churn == "edited" and ("name" in life.edits or "len" in life.edits):
        return                            # Python itself remembers every unknown encoding
    keep = run.evals, dict(run.faults)

    def grows(n, least):
        nonlocal i
        before = blocks()
        i = live(life, i, i + n)
        return (blocks() - before) / n >= least

    # the measure is noisy, and what it says of a sound library must not show in the run
    live_on = grows(16, 0.3) and grows(64, 0.2) and grows(256, 0.15)
    if live_on:
        templates = life.templates
        for tpl in templates:
            life.templates = [tpl]
            if grows(128, 0.3) and grows(256, 0.4) and all(grows(LAST >> j, 0.5) for j in (6, 5, 4, 3, 2, 1)):
                run.check(False, "accumulates", "every %s call leaves memory behind, also after %d more calls" % (
                    tpl[0], LAST - (LAST >> 6)))
        life.templates = templates
    run.evals = keep[0]
    run.faults.clear()
    run.faults.update(keep[1])


def live(life, i, upto):
    while i < upto:
        if life.threads and not i % life.threads:
            elsewhere(lambda: life.step(i))
        else:
            life.step(i)
        i += 1
    gc.collect()
    return i


def settled(sizes):
    """Neither of the last two periods reached a new high."""
    return len(sizes) > 2 and sizes[-1][1] <= max(x[1] for x in sizes[:-1]) \
        and sizes[-2][1] <= max(x[1] for x in sizes[:-2])


def suspect(run, proc, life, i, sizes):
    """Long enough for any cache that has a bound to reach it."""
    run.probe("suspected")
    n = 0
    last = LAST if len(life.templates[0][1]) < 5 else LAST >> 1
    sizes = [held(proc)]
    upto = last >> 5
    at = [0]
    while upto <= last:
        i = live(life, i, i + upto - n)
        n = upto
        at.append(n)
        sizes.append(held(proc))
        run.ev("held after", n, "more", *sizes[-1])
        if settled(sizes):
            return
        upto *= 2
    def rates(j):
        return [(b[j] - a[j]) / (m - k) for a, b, k, m in zip(sizes, sizes[1:], at, at[1:])][-3:]

    # objects without end, or one object (a log, a list of old acquaintances) without end
    run.check(min(rates(0)) < 0.5 and min(rates(2)[-2:]) < 2.5, "accumulates", lambda: "every %s call leaves %.2f objects, %.0f bytes "
              "behind: after %s calls the library holds %s objects, %s bytes" % (
                  life.templates[0][0], rates(0)[-1], rates(1)[-1], at, [x[0] for x in sizes], [x[1] for x in sizes]))
