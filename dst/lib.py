"""Loads the library under test from /repo's working tree, as often as wanted.

Each `Process` is one fresh set of module objects: a simulated operating-system process.  Nothing
survives from one to the next, so a run depends only on its tape and the source code.
"""
import importlib.abc
import importlib.util
import os
import random as _random
import sys
import threading
import time as _time
import _thread
import datetime as _datetime

REPO = os.environ.get("DST_REPO", "/repo")
PKG = "iso8583"
ROOT = os.path.join(REPO, PKG) + os.sep

real_time = _time.time
real_monotonic = _time.monotonic
real_sleep = _time.sleep
real_allocate_lock = _thread.allocate_lock
_real_Lock = threading.Lock
_real_RLock = threading.RLock


class SimDeadlock(BaseException):
    """A simulated thread waits for a lock that can never be released."""


# ---------------------------------------------------------------- clock
class Clock:
    """Simulated time seen by the library (should it ever look)."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.t = 1_700_000_000.0
        self.mono = 1000.0
        self.tick = self.jump = 0.0

    def wall(self):
        self.t += self.tick + self.jump
        return self.t

    def monotonic(self):
        self.mono += self.tick
        return self.mono

    def advance(self, d):
        self.t += d
        self.mono += max(0, d)


CLOCK = Clock()


def install_time():
    _time.time = CLOCK.wall
    _time.time_ns = lambda: int(CLOCK.wall() * 1e9)
    _time.monotonic = CLOCK.monotonic
    _time.monotonic_ns = lambda: int(CLOCK.monotonic() * 1e9)
    _time.perf_counter = CLOCK.monotonic
    _time.perf_counter_ns = lambda: int(CLOCK.monotonic() * 1e9)
    _time.process_time = CLOCK.monotonic
    gmtime, localtime, strftime, ctime, asctime = _time.gmtime, _time.localtime, _time.strftime, _time.ctime, _time.asctime
    _time.gmtime = lambda s=None: gmtime(CLOCK.wall() if s is None else s)
    _time.localtime = lambda s=None: localtime(CLOCK.wall() if s is None else s)
    _time.strftime = lambda f, x=None: strftime(f, _time.localtime() if x is None else x)
    _time.ctime = lambda s=None: ctime(CLOCK.wall() if s is None else s)
    _time.asctime = lambda x=None: asctime(_time.localtime() if x is None else x)
    real = _datetime.datetime, _datetime.date

    class datetime(real[0]):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(CLOCK.wall(), tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(CLOCK.wall(), _datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()

    class date(real[1]):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(CLOCK.wall())

    _datetime.datetime, _datetime.date = datetime, date
    os.urandom = lambda n: _random.getrandbits(8 * n).to_bytes(n, "big")
    _time.sleep = lambda s=0: CLOCK.advance(max(0, s))


# ---------------------------------------------------------------- locks
class SimLock:
    """Lock handed to library code: waiting yields to the simulated scheduler."""

    scheduler = None  # set by sched.Scheduler while it runs

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while self.owner is not None:
            if self.reentrant and self.owner == me:
                break
            if not blocking or timeout >= 0:
                return False
            s = SimLock.scheduler
            if s is None or not s.wait_for(self):
                raise SimDeadlock("lock is never released")
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count <= 0:
            self.owner = None
            self.count = 0

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def _from_library():
    """The lock is created by library code, directly or through the threading module."""
    f = sys._getframe(2)
    for _ in range(6):
        if f is None:
            return False
        name = str(f.f_globals.get("__name__", ""))
        if name.split(".")[0] == PKG:
            return True
        if name not in ("threading", "queue", "_pyrepl", "functools"):
            return False
        f = f.f_back
    return False


def _lock_factory():
    return SimLock() if _from_library() else _real_Lock()


def _rlock_factory():
    return SimLock(True) if _from_library() else _real_RLock()


def install_locks():
    threading.Lock = _lock_factory
    threading.RLock = _rlock_factory
    threading._allocate_lock = _lock_factory
    _thread.allocate_lock = _lock_factory
    _thread.RLock = _rlock_factory


# ---------------------------------------------------------------- import
_code_cache = {}
sources = {}            # path -> text of the library's files loaded so far


fail_read = [None]      # the how manieth file of the library to be read from now on cannot be


class _Loader(importlib.abc.Loader):
    def __init__(self, path, optimize):
        self.path = path
        self.optimize = optimize

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        if fail_read[0] is not None:
            fail_read[0] -= 1
            if fail_read[0] < 0:
                fail_read[0] = None
                raise OSError(24, "Too many open files", self.path)
        key = (self.path, self.optimize)
        code = _code_cache.get(key)
        if code is None:
            with open(self.path, "rb") as f:
                src = f.read()
            code = compile(src, self.path, "exec", dont_inherit=True, optimize=self.optimize)
            _code_cache[key] = code
            sources[self.path] = src
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    optimize = 0

    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        base = os.path.join(REPO, *name.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                name, init, loader=_Loader(init, self.optimize),
                submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(
                name, base + ".py", loader=_Loader(base + ".py", self.optimize))
        return None


_finder = _Finder()


def install():
    """Call once per interpreter, before anything else."""
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _finder)
    if REPO not in sys.path:
        sys.path.append(REPO)
    install_locks()
    install_time()


def reset_environment(tape):
    """What the library would see should it look: the clock (and how far it moves from one look to the next)
    and the random numbers of this run."""
    CLOCK.reset()
    CLOCK.tick = tape.weighted([(12, 0.0), (1, 0.02), (1, 7.0), (1, 4000.0)])
    CLOCK.jump = tape.weighted([(14, 0.0), (1, -3600.0)])
    _random.seed(tape.below(1 << 30))


class Process:
    """One simulated process running the library."""

    current = None

    def __init__(self, optimize=0, begun=False):
        """begun: an import that did not come to its end has left something behind."""
        self.optimize = optimize
        if not begun:
            _unload()
        _finder.optimize = optimize
        import iso8583
        import iso8583.specs
        self.modules = {k: m for k, m in sys.modules.items()
                        if k == PKG or k.startswith(PKG + ".")}
        Process.current = self
        self.encode = iso8583.encode
        self.decode = iso8583.decode
        self.pp = iso8583.pp
        self.EncodeError = iso8583.EncodeError
        self.DecodeError = iso8583.DecodeError
        self.specs = iso8583.specs

    def activate(self):
        """Make this the process that imports and pickles."""
        if Process.current is not self:
            if Process.current is not None:
                Process.current.modules = {
                    k: m for k, m in sys.modules.items()
                    if k == PKG or k.startswith(PKG + ".")}
            _unload()
            sys.modules.update(self.modules)
            _finder.optimize = self.optimize
            Process.current = self
        return self


def _unload():
    for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + ".")]:
        del sys.modules[k]


def in_library(filename):
    return filename.startswith(ROOT)
