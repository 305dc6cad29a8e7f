"""C11: a result depends only on the arguments, which are only read.

System: one long-lived process making many calls under several specifications which are edited in
place between calls, copied, replaced, held as read-only or lazily computed mappings.  Every call must
have the outcome of the same call in a fresh process that has made no other.
"""
import contextlib
import copy
import decimal
import gc
import io
import locale
import logging
import os
import random
import sys
import threading
import time
from collections import OrderedDict
from types import MappingProxyType

from .. import gen, lib, model, seams, words
from ..tape import Tape
from ..core import call, freeze, short, diff
from .common import boot, shape, describe_spec
from . import ops
from .c09 import anywhere, handling


def run(run):
    t = run.t
    ASKED.clear()
    _watch_environment()
    proc = boot(run)
    if t.chance(0.06):
        with surroundings(run):
            proc = lib.Process(proc.optimize)
    packaged = freeze([proc.specs.default, proc.specs.default_ascii])
    specs = [gen.gen_spec(t, nfields=t.pick([2, 4, 8]), desc=t.chance(0.3))]
    if t.chance(0.6):
        specs.append(sibling(t, specs[0]))
    if t.chance(0.12):
        specs.append(t.pick([proc.specs.default, proc.specs.default_ascii]))
    history = []
    refused = []
    nsteps = 4 + t.below(12)
    busy = t.below(nsteps) if t.chance(0.03) else None
    for step in range(nsteps):
        if step == busy:
            soak(run, proc, specs[0])
        i = t.below(len(specs))
        spec = specs[i]
        if not any(spec is x for x in (proc.specs.default, proc.specs.default_ascii)):
            what = t.weighted([(5, "same"), (4, "edit"), (1, "copy"), (1, "rebuilt")])
            if what == "edit":
                change(run, t, spec)
            elif what == "copy":
                specs[i] = spec = copy.deepcopy(spec)
            elif what == "rebuilt":
                # gone and built anew: an equal-looking object at, perhaps, the same address
                fresh = sibling(t, spec)
                spec.clear()
                spec.update(fresh)
                run.fault("spec_rebuilt_in_place")
        op = None
        if history and t.chance(0.4):
            op = t.pick(history)         # the same call again, whatever the specification is now
            if op[0] == "pp" and any(k not in spec for k in op[1]):
                op = None
        handled = None
        if refused and t.chance(0.25):
            # while an earlier refusal is being handled, often another attempt at the same
            handled = refused[-1]
            if t.chance(0.7) and not (handled[0][0] == "pp" and any(k not in spec for k in handled[0][1])):
                op = handled[0]
                if t.chance(0.5) and not any(spec is x for x in (proc.specs.default, proc.specs.default_ascii)):
                    change(run, t, spec)
                    if op[0] == "pp" and any(k not in spec for k in op[1]):
                        op = None
        if op is None:
            op = ops.gen_calls(t, spec, 1, proc)[0]
            history.append(op)
        how = t.weighted([(5, "dict"), (2, "readonly"), (2, "lazy"), (1, "proxy"), (1, "temporary")])
        if how == "dict":
            use = spec
        elif how == "readonly":
            use = seams.wrap_spec(spec)
        elif how == "lazy":
            use = seams.Lazy(spec)
        elif how == "proxy":
            use = MappingProxyType({k: MappingProxyType(v) for k, v in spec.items()})
        else:
            use = copy.deepcopy(spec)
        if how != "dict":
            run.fault("held_as_" + how)
        plain = {k: dict(v) for k, v in spec.items()}
        frozen = freeze(plain)
        args = ops.args_of(op)
        if t.chance(0.2):
            args[0] = held_otherwise(run, op, args[0])
        before = freeze(args[0])
        if handled is not None:
            run.fault("call_in_handler")
            out, st = handling(handled[1], lambda: ops.perform(proc, op, args, use))
        elif t.chance(0.12):
            with surroundings(run):
                out, st = ops.perform(proc, op, args, use)
        else:
            out, st = anywhere(run, lambda: ops.perform(proc, op, args, use), 0.08)
        if not out.ok:
            refused.append((op, out.exc))
        run.evals += 1
        run.steps += 1
        got = plain_types(ops.snapshot(op, args, out, st))
        del use
        want = ops.alone(op, plain, proc.optimize)
        run.ev("call", step, i, how, op, got[0][0])
        run.mark(op[0], how, got[0][0])
        run.check(got == want, "history", lambda: "call %d, %s (specification held as %s): got %s, in a fresh process %s; %s"
                  % (step, short(op), how, short(got, 400), short(want, 400), short(plain, 600)))
        run.check(freeze({k: dict(v) for k, v in spec.items()}) == frozen, "spec-changed",
                  lambda: "%s changed the specification: %s" % (short(op), diff(freeze(spec), frozen)))
        if op[0] != "encode":
            run.check(freeze(args[0]) == before, "argument-changed", lambda: "%s changed its argument: %s" % (
                short(op), diff(freeze(args[0]), before)))
        now = freeze([proc.specs.default, proc.specs.default_ascii])
        run.check(now == packaged, "packaged-changed", lambda: "%s changed a packaged specification" % short(op))
    run.nontrivial = True


VARIABLES = ["COLUMNS", "LINES", "LANG", "LC_ALL", "TZ", "TERM", "DEBUG", "ENV", "NO_COLOR", "PYTHONWARNINGS", "PYTHONUTF8",
             "PYTHONIOENCODING", "ISO8583", "ISO8583_DEBUG", "ISO8583_STRICT", "ISO8583_SPEC", "USER", "HOME", "TMPDIR"]


ASKED = set()           # environment variables the library has looked at in this run


def _watch_environment():
    """Note which variables library code asks for."""
    cls = type(os.environ)
    if getattr(cls, "_noted", False):
        return
    cls._noted = True
    for name in ("__getitem__", "__contains__"):
        def method(self, key, real=getattr(cls, name, None) or (lambda s, k: k in s._data)):
            f = sys._getframe(1)
            for _ in range(5):
                if f is None:
                    break
                if lib.in_library(f.f_code.co_filename):
                    ASKED.add(str(key))
                    break
                f = f.f_back
            return real(self, key)
        setattr(cls, name, method)


class Terminal(io.StringIO):
    encoding = "utf-8"

    def isatty(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation("fileno")


@contextlib.contextmanager
def surroundings(run):
    """Another environment, locale, working directory, time and state of the interpreter, for one call."""
    t = run.t
    env = dict(os.environ)
    cwd = os.getcwd()
    saved = sys.stdout, sys.stdin, locale.setlocale(locale.LC_ALL), random.getstate(), gc.isenabled()
    interpreter = (sys.argv, sys.getrecursionlimit(), sys.get_int_max_str_digits(), logging.root.level,
                   threading.current_thread().name, decimal.getcontext().prec, os.getpid)
    what = t.subset(["variables", "directory", "locale", "clock", "chance", "streams", "collector", "interpreter"], 0.4)
    if ASKED and "variables" not in what and t.chance(0.5):
        what = ["variables"] + what
    run.ev("surroundings", what)
    for w in what:
        run.fault("changed_" + w)
    try:
        if "variables" in what:
            for k in t.subset(VARIABLES, 0.5) + t.subset(sorted(ASKED), 0.8):
                if k in env and t.chance(0.5):
                    del os.environ[k]
                else:
                    os.environ[k] = t.pick(["1", "0", "20", "", "de_DE.UTF-8", "Asia/Kathmandu"])
            time.tzset()
        if "directory" in what:
            os.chdir("/usr")
        if "locale" in what:
            locale.setlocale(locale.LC_ALL, t.pick(["C", "C.UTF-8", "POSIX"]))
        if "clock" in what:
            lib.CLOCK.advance(words.number(t, t.pick([1, 60, 4000, 1e7, 1e8, 3e9, -1.69999e9]), 0.3))
        if "chance" in what:
            random.seed(t.below(1000))
        if "streams" in what:
            sys.stdin = None
            sys.stdout = t.pick([None, io.TextIOWrapper(io.BytesIO(), encoding="ascii"), Terminal()])
        if "collector" in what:
            gc.disable()
        if "interpreter" in what:
            sys.argv = t.pick([["app", "-v", "--debug"], ["python", "-m", "pytest"], [""]])
            sys.setrecursionlimit(interpreter[1] + 500)
            sys.set_int_max_str_digits(t.pick([640, 0]))
            logging.root.setLevel(t.pick([1, 10, 50]))
            threading.current_thread().name = t.pick(["worker-1", "asyncio_0", "Dummy-7"])
            decimal.getcontext().prec = t.pick([1, 60])
            os.getpid = lambda: 1
            if t.chance(0.5):
                sys.ps1 = ">>> "
        yield
    finally:
        sys.argv = interpreter[0]
        sys.setrecursionlimit(interpreter[1])
        sys.set_int_max_str_digits(interpreter[2])
        logging.root.setLevel(interpreter[3])
        threading.current_thread().name = interpreter[4]
        decimal.getcontext().prec = interpreter[5]
        os.getpid = interpreter[6]
        if hasattr(sys, "ps1"):
            del sys.ps1
        sys.stdout, sys.stdin = saved[:2]
        locale.setlocale(locale.LC_ALL, saved[2])
        random.setstate(saved[3])
        if saved[4]:
            gc.enable()
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(env)
        time.tzset()


class Text(str):
    """Text as a library of the application hands it out."""


class Raw(bytes):
    """A received frame, as the transport hands it out."""


class Buffer(bytearray):
    pass


class Record(dict):
    pass


def held_otherwise(run, op, arg):
    """The same content, held by an application's own types or in another order."""
    t = run.t
    if op[0] == "decode":
        run.fault("frame_of_own_type")
        return (Raw if type(arg) is bytes else Buffer)(arg)
    items = list(arg.items())
    if all(isinstance(k, str) and (k in ("h", "t", "p") or (k.isascii() and k.isdigit())) for k in arg):
        # (a refusal may list several impossible keys in the order it found them)
        how = t.below(3)
        if how == 0:
            items.reverse()
        elif how == 1:
            i = t.below(len(items) or 1)
            items = items[i:] + items[:i]
        run.fault("keys_in_another_order")
    if op[0] == "encode" and t.chance(0.5):
        items = [(Text(k) if type(k) is str else k, Text(v) if type(v) is str else v) for k, v in items]
        run.fault("text_of_own_type")
    return t.pick([dict, Record, OrderedDict])(items)


def plain_types(x):
    if type(x) is tuple:
        if len(x) == 2 and x[0] in ("Text", "Raw"):
            return x[1]
        if len(x) == 2 and x[0] == "Buffer":
            return ("bytearray", x[1])
        if len(x) == 2 and x[0] == "mapping":
            return plain_types(x[1])
        return tuple(plain_types(v) for v in x)
    if type(x) is dict:
        return {k: plain_types(v) for k, v in x.items()}
    return x


def soak(run, proc, spec):
    """A long uneventful life: hundreds of messages under up to hundreds of specifications."""
    t = run.t
    n = t.pick([100, 300, 700, 1500, 2500])
    sub = Tape(seed="soak %d" % t.below(1 << 16))
    variants = [spec] + [sibling(sub, spec) for _ in range(t.pick([0, 3, 40, 300]))]
    run.ev("soak", n, len(variants))
    run.probe("soaked")
    for i in range(n):
        use = sub.pick(variants)
        doc = gen.gen_doc(sub, use, p=sub.pick([0.5, 0.2]), extra=False, limit=sub.pick([10, 300]), most=300)
        fresh = dict(doc)
        out = call(proc.encode, doc, use)
        run.evals += 1
        try:
            want = model.encode(fresh, use)[0]
        except model.Reject:
            want = None
        got = bytes(out.value[0]) if out.ok else None
        run.check(got == want, "history", lambda: "message %d of a long-lived process, %s: got %s, the format says %s" % (
            i, short(fresh), short(got, 400), short(want, 400)))
        if want is None:
            continue
        out = call(proc.decode, got, use)
        try:
            want = model.decode(got, use)[0]
        except model.Reject:
            want = None
        run.check(out.ok == (want is not None) and (want is None or out.value[0] == want), "history",
                  lambda: "message %d of a long-lived process, %s: decoded as %s, the format says %s" % (
                      i, short(got), short(out, 400), short(want, 400)))
        if not i % 7:
            call(proc.pp, {k: v for k, v in doc.items() if k in use}, use, 30, seams.Stream(), sub.pick([80, 20]))


def sibling(t, spec):
    """Same fields, some of them described differently."""
    out = copy.deepcopy(spec)
    for k in gen.defined(out):
        if t.chance(0.4):
            out[k] = dict(gen.gen_field(t), desc=out[k].get("desc", "F"))
    if t.chance(0.3):
        out["p"] = gen.gen_bitmap(t)
    if t.chance(0.3):
        e = t.pick(["ascii", "b", "cp500"])
        out["t"] = dict(out["t"], data_enc=e)
    return out


def change(run, t, spec):
    """Edit the specification in place, one fact at a time."""
    for _ in range(1 + t.below(2)):
        keys = gen.defined(spec)
        how = t.below(9)
        if how == 8:
            n = str(2 + t.below(191))
            if n != "65":
                spec[n] = dict(gen.gen_field(t), desc="added")
            run.fault("spec_field_added")
            continue
        if how == 7:
            k = t.pick(["p", "1", "t", "h"])
            if k == "h":
                spec["h"]["max_len"] = 0 if spec["h"]["max_len"] else 4
            elif k == "t":
                spec["t"]["data_enc"] = t.pick(["ascii", "b", "cp500"])
            else:
                spec[k]["data_enc"] = t.pick(["b", "ascii", "cp500"])
            run.fault("spec_edited_head")
            continue
        if not keys:
            continue
        k = t.pick(keys)
        fs = spec[k]
        if how == 0:
            fs["max_len"] = max(0, fs["max_len"] + t.pick([1, -1, 2, -2, 10]))
        elif how == 1:
            fs["data_enc"] = t.pick(["ascii", "b", "cp500", "utf-8"])
        elif how == 2:
            fs["len_enc"] = t.pick(["ascii", "b", "bcd", "cp500"])
        elif how == 3:
            fs["len_type"] = t.below(4)
        elif how == 4:
            fs["len_count"] = t.pick(["bytes", "nibbles"])
        elif how == 5:
            fs[t.pick(["left_pad", "right_pad"])] = t.pick(["0", "F", "a", ""])
        else:
            if t.chance(0.5):
                del spec[k]
                run.fault("spec_field_removed")
                continue
            fs["desc"] = t.pick(gen.DESCS)
        run.fault("spec_edited")
