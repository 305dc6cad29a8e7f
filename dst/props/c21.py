"""C21: calls have no effect but their documented ones.

System: a process in which the simulator owns the standard streams, the log, the warnings, and watches
every door to the outside (files, sockets, processes) and every process-wide setting.  The library is
imported and makes calls that succeed, are refused, meet failing encodings and streams, or are struck by
an exception at any line.  Afterwards everything outside the arguments must be as it was.
"""
import atexit
import binascii
import builtins
import codecs
import contextvars
import copy
import copyreg
import decimal
import encodings.aliases as aliases
import faulthandler
import gc
import importlib
import io
import json
import locale
import logging
import os
import pickle
import random
import re
import resource
import signal
import socket
import string
import sys
import threading
import time
import tracemalloc
import warnings

from .. import gen, lib, seams
from ..core import call, freeze, short, diff
from ..sched import Tracer
from .c09 import KINDS
from .common import boot, shape
from . import ops

WATCH = None            # list collecting audit events while a library call runs
SAFE = ("object.", "sys._getframe", "sys._current", "code.__new__", "exec", "compile", "marshal.", "import",
        "gc.", "pickle.", "builtins.id", "cpython.", "sys.settrace", "sys.setprofile", "array.", "sys.unraisable",
        "function.__new__", "sys.excepthook", "time.", "sys.monitoring", "re.")


def _audit(event, args):
    w = WATCH
    if w is None or event.startswith(SAFE):
        return
    f = sys._getframe(1)
    g = f
    while g is not None:
        name = g.f_code.co_filename
        if name.startswith("<frozen importlib") or name.startswith("<frozen zipimport") or "/encodings/" in name:
            return          # looking up a module or an encoding
        g = g.f_back
    g = f
    while g is not None:
        if lib.in_library(g.f_code.co_filename):
            w.append((event, short(args, 80)))
            return
        g = g.f_back


_installed = []
SHARED = (binascii, codecs, copyreg, string, time, random, os, sys, gc, re, pickle, copy, json, io, logging)
MOVING = {"last_exc", "last_type", "last_value", "last_traceback", "_"}


def install():
    if not _installed:
        _installed.append(1)
        sys.addaudithook(_audit)
        # numbers and encodings the first use of which changes nothing that matters
        for e in gen.TEXT + gen.DIGIT_ENC:
            codecs.lookup(e)
        for m, name in ((codecs, "register"), (codecs, "register_error"), (os, "register_at_fork"),
                        (threading, "settrace")):
            _spy(m, name)


def _spy(module, name):
    real = getattr(module, name)

    def f(*a, **k):
        if WATCH is not None and lib.in_library(sys._getframe(1).f_code.co_filename):
            WATCH.append(("%s.%s" % (module.__name__, name), short(a, 80)))
        return real(*a, **k)
    setattr(module, name, f)


class Log(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, 0)
        self.seen = []

    def emit(self, record):
        self.seen.append(record.getMessage())


def _umask():
    m = os.umask(0o77)
    os.umask(m)
    return m


def settings():
    """Process-wide settings a library has no business with."""
    d = decimal.getcontext()
    return {
        "recursion limit": sys.getrecursionlimit(),
        "int digits limit": sys.get_int_max_str_digits(),
        "switch interval": sys.getswitchinterval(),
        "gc": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), gc.get_freeze_count(), list(gc.callbacks)),
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "locale": locale.setlocale(locale.LC_ALL, None),
        "random state": hash(random.getstate()),
        "signal handlers": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP,
                                                          signal.SIGPIPE, signal.SIGUSR1)],
        "signal mask": sorted(signal.pthread_sigmask(signal.SIG_BLOCK, [])),
        "timers": signal.getitimer(signal.ITIMER_VIRTUAL),
        "standard streams": (sys.stdin, sys.stdout, sys.stderr),
        "hooks": (sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook,
                  sys.breakpointhook, sys.getprofile(), threading.gettrace(), threading.getprofile()),
        "trace": sys.gettrace(),
        "threads": threading.active_count(),
        "warning filters": list(warnings.filters),
        "decimal context": (d.prec, d.rounding, str(d)),
        "exit handlers": atexit._ncallbacks(),
        "import path": list(sys.path) + list(map(id, sys.meta_path)),
        "builtins": {k: id(v) for k, v in vars(builtins).items() if k != "_"},
        "log levels": (logging.root.level, logging.root.manager.disable, [h for h in logging.root.handlers]),
        "loggers": [k for k in logging.root.manager.loggerDict if not k.startswith(lib.PKG)],
        "codec error handlers": [codecs.lookup_error(x) for x in (
            "strict", "ignore", "replace", "xmlcharrefreplace", "backslashreplace", "namereplace",
            "surrogateescape", "surrogatepass")],
        "codecs": [codecs.lookup(e).encode for e in ("ascii", "latin-1", "utf-8", "cp500")],
        "encoding names": len(aliases.aliases),
        "file mode mask": _umask(),
        "processors": os.sched_getaffinity(0),
        "open files": len(os.listdir("/proc/self/fd")),
        "diagnostics": (tracemalloc.is_tracing(), faulthandler.is_enabled(), getattr(sys, "tracebacklimit", None),
                        sys.dont_write_bytecode),
        "resource limits": [resource.getrlimit(x) for x in (resource.RLIMIT_NOFILE, resource.RLIMIT_AS,
                                                            resource.RLIMIT_STACK, resource.RLIMIT_CORE)],
        "priority": os.getpriority(os.PRIO_PROCESS, 0),
        "socket timeout": socket.getdefaulttimeout(),
        "time zone": time.tzname,
        "context variables": dict(contextvars.copy_context().items()),
        "pickle registry": len(copyreg.dispatch_table),
        "standard modules": [(k, id(v)) for m in SHARED for k, v in vars(m).items()
                             if k not in MOVING],
        "default encoding": (sys.getdefaultencoding(), sys.getfilesystemencoding()),
    }


def run(run):
    global WATCH
    install()
    t = run.t
    saved = sys.stdout, sys.stderr
    out, err = seams.Stream(), seams.Stream()
    log = Log()
    logging.root.addHandler(log)
    level = logging.root.level
    logging.root.setLevel(1)
    events = []
    restore = {"rec": sys.getrecursionlimit(), "int": sys.get_int_max_str_digits(), "env": dict(os.environ),
               "switch": sys.getswitchinterval(), "locale": locale.setlocale(locale.LC_ALL, None), "cwd": os.getcwd()}
    try:
        with warnings.catch_warnings(record=True) as warned:
            warnings.simplefilter("always")
            sys.stdout, sys.stderr = out, err
            live(run, t, out, err, log, warned, events)
    finally:
        WATCH = None
        sys.stdout, sys.stderr = saved
        logging.root.removeHandler(log)
        logging.root.setLevel(level)
        logging.disable(0)
        sys.setrecursionlimit(restore["rec"])
        sys.set_int_max_str_digits(restore["int"])
        sys.setswitchinterval(restore["switch"])
        gc.enable()
        locale.setlocale(locale.LC_ALL, restore["locale"])
        if dict(os.environ) != restore["env"]:
            os.environ.clear()
            os.environ.update(restore["env"])


def live(run, t, out, err, log, warned, events):
    global WATCH
    before = settings()
    WATCH = events
    try:
        proc = again(run, t) if t.chance(0.2) else boot(run)
    finally:
        WATCH = None
    judge(run, "importing the library", before, out, err, log, warned, events)
    spec = gen.gen_spec(t, shipped=proc.specs, nfields=t.pick([2, 4, 8]), desc=t.chance(0.3), full=0.05)
    odd = t.chance(0.15)
    if odd:
        spec = gen.exotic(t, spec, run)
    calls = ops.gen_calls(t, spec, 2 + t.below(4), proc, bad=t.pick([0.1, 0.5]), limit=t.pick([20, 60, 400]))
    run.mark([c[0] for c in calls], len(spec))
    for op in calls:
        for _ in range(1 + t.below(4)):
            one(run, t, proc, spec, op, out, err, log, warned, events, odd)
            if odd:
                del warned[:]        # some of these encodings warn about what they are given


def again(run, t):
    """A process whose first attempts to import the library are cut short."""
    optimize = t.weighted([(8, 0), (1, 1), (1, 2)])
    lib._unload()
    names = ["iso8583", "iso8583.specs", "iso8583.decoder", "iso8583.encoder", "iso8583.tools"]
    begun = False
    for _ in range(1 + t.below(3)):
        first = t.pick(names)
        tracer = Tracer()
        if t.chance(0.3):
            lib.fail_read[0] = t.below(5)
            run.fault("file_unreadable")
        else:
            name, make = t.pick(KINDS)

            def action(frame):
                run.fault("strike_" + name)
                raise make()

            tracer = Tracer(at=t.below(120) if t.chance(0.7) else t.below(4000), action=action, strike=True)
        try:
            if not begun:
                lib._finder.optimize = optimize
                begun = True
            out = tracer.call(lambda: (importlib.import_module(first), importlib.import_module("iso8583.specs")))
        finally:
            lib.fail_read[0] = None
        run.ev("import", first, out.ok)
        run.evals += 1
    try:
        proc = lib.Process(optimize, begun=True)
    except Exception as e:
        run.check(False, "import-not-repeatable", "after an interrupted import, importing the library raises %r" % (e,))
    for name in ("encode", "EncodeError", "decode", "DecodeError", "pp"):
        home = {"encode": "encoder", "EncodeError": "encoder", "pp": "tools"}.get(name, "decoder")
        home = proc.modules.get("iso8583." + home)
        run.check(getattr(proc, name) is getattr(home, name, getattr(proc, name)), "import-not-repeatable",
                  lambda: "after an interrupted import there are two %s" % name)
    spec = gen.gen_spec(t, shipped=proc.specs, nfields=3, full=0.2)
    for op in ops.gen_calls(t, spec, 1 + t.below(3), proc):
        args = ops.args_of(op)
        out, st = ops.perform(proc, op, args, copy.deepcopy(spec))
        got = ops.snapshot(op, args, out, st)
        want = ops.alone(op, spec, optimize)
        run.check(got == want, "import-not-repeatable", lambda: "after an interrupted import %s: got %s, else %s" % (
            short(op), short(got, 400), short(want, 400)))
    return proc


def one(run, t, proc, spec, op, out, err, log, warned, events, odd):
    global WATCH
    how = t.weighted([(3, "plain"), (4, "struck"), (1, "mapping"), (1, "failing stream"), (1, "default stream")])
    if how in ("failing stream", "default stream") and op[0] != "pp":
        how = "struck"
    args = ops.args_of(op)
    tracer = stream = None
    use = spec
    stdout_allowed = False
    if how == "struck":
        probe = Tracer()
        ops.perform(lib.Process(proc.optimize), op, ops.args_of(op), spec, tracer=probe)
        proc.activate()
        name, make = t.pick(KINDS)

        def action(frame):
            run.fault("strike_" + name)
            raise make()

        tracer = Tracer(at=t.below(max(1, probe.n)), action=action, strike=True)
    elif how == "mapping":
        left = [t.below(40)]

        def hook():
            left[0] -= 1
            if left[0] == 0:
                run.fault("mapping_fails")
                raise LookupError("specification service is down")

        use = seams.wrap_spec(spec, hook)
    elif how == "failing stream":
        run.fault("stream_fails")
        stream = seams.Stream(fail_at=t.below(6), exc=OSError("disk full"))
    before = settings()
    del events[:]
    WATCH = events
    try:
        if how == "default stream":
            stdout_allowed = True
            got = call(proc.pp, args[0], spec, args[1], None, args[2])
        else:
            got, st = ops.perform(proc, op, args, use, stream=stream, tracer=tracer)
    finally:
        WATCH = None
    run.evals += 1
    run.nontrivial = True
    run.ev("call", how, op, got)
    run.mark(how, got.ok, type(got.exc).__name__)
    judge(run, "%s (%s; outcome %r)" % (short(op), how, got), before, out, err, log, [] if odd else warned, events,
          stdout_allowed)


def judge(run, what, before, out, err, log, warned, events, stdout_allowed=False):
    after = settings()
    for k in before:
        run.check(before[k] == after[k], "setting-changed", lambda: "%s changed the process's %s from %s to %s" % (
            what, k, short(before[k], 120), short(after[k], 120)))
    for name, st in (("standard output", out), ("standard error", err)):
        text, foreign = st.text(), list(st.__dict__["foreign"])
        del st.writes[:]
        del st.__dict__["foreign"][:]
        if name == "standard output" and stdout_allowed:
            continue
        run.check(not text, "wrote", lambda: "%s wrote %s to %s" % (what, short(text), name))
    run.check(not log.seen, "logged", lambda: "%s logged %s" % (what, short(log.seen)))
    run.check(not warned, "warned", lambda: "%s warned %s" % (what, short([str(w.message) for w in warned])))
    run.check(not events, "outside-effect", lambda: "%s reached outside the process: %s" % (what, short(events)))
