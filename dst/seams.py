"""Simulator-owned objects handed to the library: streams, specification mappings, codecs, disk."""
import codecs
from collections.abc import Mapping


# ---------------------------------------------------------------- output streams
class Stream:
    """Accepts write() and nothing else.  May fail at a chosen write; may run a callback."""

    def __init__(self, fail_at=None, exc=None, ret=0, hook=None):
        self.__dict__["writes"] = []
        self.__dict__["after"] = 0
        self.__dict__["fail_at"] = fail_at
        self.__dict__["exc"] = exc
        self.__dict__["ret"] = ret
        self.__dict__["hook"] = hook
        self.__dict__["foreign"] = []

    def write(self, s):
        d = self.__dict__
        if d["fail_at"] is not None and len(d["writes"]) >= d["fail_at"]:
            d["after"] += 1
            raise d["exc"]
        d["writes"].append(s)
        if d["hook"] is not None:
            d["hook"](len(d["writes"]))
        r = d["ret"]
        if r == 1:
            return len(s)
        if r == 2:
            return 0
        if r == 3:
            return max(0, len(s) - 1)
        return None

    def __getattr__(self, name):
        self.__dict__["foreign"].append(name)
        raise AttributeError("simulated stream has only write(), not %s" % name)

    def text(self):
        return "".join(self.__dict__["writes"])


# ---------------------------------------------------------------- specification mappings
class ReadOnly(Mapping):
    """A read-only Mapping; each access may run a callback (a scheduling point, a nested call)."""

    def __init__(self, d, hook=None):
        self._d = d
        self._hook = hook

    def __getitem__(self, k):
        if self._hook is not None:
            self._hook()
        return self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)


class Lazy(Mapping):
    """Computes a fresh field dictionary on every access: nothing may be remembered by identity."""

    def __init__(self, d):
        self._d = d

    def __getitem__(self, k):
        return dict(self._d[k])

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)


def wrap_spec(spec, hook=None):
    return ReadOnly({k: ReadOnly(v, hook) for k, v in spec.items()}, hook)


# ---------------------------------------------------------------- codec registry
def base_name(n):
    """The encoding behind a simulated one."""
    base = n.split("_")[1]
    for e in ("latin-1", "utf-8", "utf-16-le", "koi8-r"):
        if base == e.replace("-", "0"):
            return e
    return base


class Registry:
    """Text encodings under simulator control, named sim_<base>_<serial>.

    on_use(op, name) is called at every lookup and conversion; whatever it raises is the fault, and
    the value "bad" makes the codec return a wrong type.
    """

    def __init__(self, on_use):
        self.on_use = on_use
        self.bases = {}
        self.search = self._search       # unregistering needs the same object; it also clears the cache
        codecs.register(self.search)

    def close(self):
        codecs.unregister(self.search)

    def name(self, base, tag=""):
        n = "sim_%s_%s" % (base.replace("-", "0"), tag)
        self.bases[n] = base
        return n

    def _search(self, name):
        base = self.bases.get(name)
        if base is None:
            return None
        r = self.on_use("lookup", name)
        if r == "unknown":
            return None
        info = codecs.lookup(base)

        def enc(s, errors="strict"):
            r = self.on_use("encode", name)
            if r == "bad":
                return ("not bytes", len(s))
            return info.encode(s, errors)

        def dec(b, errors="strict"):
            r = self.on_use("decode", name)
            if r == "bad":
                return (b"not str", len(b))
            return info.decode(bytes(b), errors)

        return codecs.CodecInfo(name=name, encode=enc, decode=dec)


# ---------------------------------------------------------------- disk
class Disk:
    """Append-only files; only what was synced certainly survives a crash."""

    def __init__(self):
        self.synced = b""
        self.pending = []

    def append(self, data):
        self.pending.append(data)

    def sync(self):
        self.synced += b"".join(self.pending)
        self.pending = []

    def crash(self, t, fault):
        """Lose the unsynced tail, or keep a torn part of it."""
        if self.pending:
            whole = b"".join(self.pending)
            how = t.below(3)
            if how == 0:
                fault("unsynced_lost")
                kept = b""
            elif how == 1:
                fault("unsynced_torn")
                kept = whole[:t.below(len(whole) + 1)]
            else:
                fault("unsynced_kept")
                kept = whole
            self.synced += kept
            self.pending = []
        return self.synced
