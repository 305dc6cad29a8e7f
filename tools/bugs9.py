"""Ninth batch of planted bugs (see make_seeded.py): what one thread's failure does to another."""
import os, runpy
_m = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs4.py"))
BUGS, PRE, INTERLEAVE, STRIKE = {}, _m["PRE"], _m["INTERLEAVE"], _m["STRIKE"]


def bug(bid, prop, needs, breaks, edits, demo, extra=""):
    import textwrap
    BUGS[bid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + extra + textwrap.dedent(demo))


OTHER = '''
def other_thread(f, *a):
    "outcome of a call made by another thread, or None if it never ends"
    out = []
    t = threading.Thread(target=lambda: out.append(outcome(f, *a)), daemon=True); t.start(); t.join(5)
    return out[0] if out else None
'''
E, D, T, S = "encoder.py", "decoder.py", "tools.py", "specs.py"

bug("c12-rlock", "C12", "a stream that fails, and the next trace printed by another thread",
    "pp holds a re-entrant lock while it prints and does not give it back when the stream fails: later calls of the "
    "same thread succeed, those of others block for ever",
    [(T, '''    if "h" in doc and spec["h"]["max_len"] > 0:
        _pp_field''', '''    _lock.acquire()

    if "h" in doc and spec["h"]["max_len"] > 0:
        _pp_field'''), (T, '''        _pp_field(doc, spec, desc_width, stream, line_width, field_key)


def''', '''        _pp_field(doc, spec, desc_width, stream, line_width, field_key)

    _lock.release()


def'''), (T, '''import sys as _sys
''', '''import sys as _sys
import threading as _threading
'''), (T, '''SpecDict = Mapping[str, Mapping[str, Any]]
''', '''SpecDict = Mapping[str, Mapping[str, Any]]
_lock = _threading.RLock()
''')], '''
    class Full:
        def write(self, x): raise OSError(28)
    def show():
        f = io.StringIO(); pp({"t": "0200", "2": "12"}, specs.default_ascii, 30, f); return f.getvalue()
    want = outcome(show)
    outcome(pp, {"t": "0200"}, specs.default_ascii, 30, Full())
    if outcome(show) != want: bad("same thread")
    if other_thread(show) != want: bad("other thread")
    ''', OTHER)

bug("c17-rlock", "C17", "an encoding that fails with something else than LookupError, and a retry by another thread",
    "conversions are made under a re-entrant lock that is given back only after success or LookupError",
    [(D, '''    try:
        return data.decode(field_spec["data_enc"])
    except LookupError:
''', '''    try:
        _codecs.acquire()
        text = data.decode(field_spec["data_enc"])
        _codecs.release()
        return text
    except LookupError:
        _codecs.release()
'''), (D, '''_FieldSpecDict = Mapping[str, Any]
''', '''_FieldSpecDict = Mapping[str, Any]
_codecs = threading.RLock()
'''), (D, "import binascii\n", "import binascii\nimport threading\n")], '''
    import codecs
    fail = [True]
    def dec(b, errors="strict"):
        if fail[0]: raise OSError("table not loaded")
        return bytes(b).decode("ascii"), len(b)
    codecs.register(lambda n: codecs.CodecInfo(lambda s, e="strict": (s.encode("ascii"), len(s)), dec) if n == "xhost" else None)
    spec = new(); spec["2"].update(data_enc="xhost")
    s = b"0200400000000000000002" + b"12"
    outcome(decode, s, spec)
    fail[0] = False
    want = outcome(decode, s, spec)
    if other_thread(decode, s, spec) != want: bad("another thread's retry")
    ''', OTHER)

bug("c09-rlock", "C09", "an interruption while a field is encoded, then a call by another thread",
    "encode holds a re-entrant lock that is given back on success and on EncodeError only",
    [(E, '''    s += _encode_header(doc_dec, doc_enc, spec)
''', '''    _busy.acquire()
    s += _encode_header(doc_dec, doc_enc, spec)
'''), (E, '''    return s, doc_enc


#
''', '''    _busy.release()
    return s, doc_enc


#
'''), (E, '''        self.doc_dec = doc_dec
        self.doc_enc = doc_enc
''', '''        self.doc_dec = doc_dec
        self.doc_enc = doc_enc
        if _busy._is_owned():
            _busy.release()
'''), (E, '''class EncodeError(ValueError):
''', '''_busy = threading.RLock()


class EncodeError(ValueError):
'''), (E, '''import re
''', '''import re
import threading
''')], '''
    class Quit(BaseException): pass
    doc = {"t": "0200", "2": "12"}
    want = outcome(lambda: encode(dict(doc), specs.default_ascii))
    for n in range(1, 200):
        if strike(n, Quit(), encode, dict(doc), new())[2]: break
        if other_thread(lambda: encode(dict(doc), specs.default_ascii)) != want: bad(n)
    ''', STRIKE + OTHER)

bug("c11-tls", "C11", "a call made by a thread other than the one that imported the library",
    "the placeholder of a description is set in a thread-local by the import: in other threads it is empty and "
    "short descriptions are not padded",
    [(T, '''            " {desc: <{desc_width}}".format(
                desc=spec[field_key]["desc"][:desc_width],
                desc_width=desc_width,
            )
''', '''            " "
            + spec[field_key]["desc"][:desc_width].ljust(
                desc_width, getattr(_style, "fill", ".")
            )
'''), (T, '''import sys as _sys
''', '''import sys as _sys
import threading as _threading
'''), (T, '''SpecDict = Mapping[str, Mapping[str, Any]]
''', '''SpecDict = Mapping[str, Mapping[str, Any]]
_style = _threading.local()
_style.fill = " "
''')], '''
    def show():
        f = io.StringIO(); pp({"t": "0200", "2": "12"}, specs.default_ascii, 40, f); return f.getvalue()
    want = outcome(show)
    if other_thread(show) != want: bad(other_thread(show))
    ''', OTHER)

bug("c20-threads", "C20", "a server that starts a thread for every connection",
    "working space is kept per thread, by thread object, and stays when the thread is gone",
    [(D, '''    doc_dec: DecodedDict = {}
''', '''    doc_dec: DecodedDict = {}
    _work.setdefault(threading.current_thread(), bytearray())
'''), (D, '''_FieldSpecDict = Mapping[str, Any]
''', '''_FieldSpecDict = Mapping[str, Any]
_work: Dict[threading.Thread, bytearray] = {}
'''), (D, "import binascii\n", "import binascii\nimport threading\n")], '''
    spec = new(); s = b"0200400000000000000002" + b"12"
    def f(i):
        t = threading.Thread(target=decode, args=(s, spec)); t.start(); t.join()
    if grows(f): bad(grows(f))
    ''', _m["HELD"])

bug("c08-stopflag", "C08", "the stream of one thread fails while another thread is printing",
    "after a failed write pp stops by a module-level flag: every pp under way stops with it",
    [(T, '''        _pp_field(doc, spec, desc_width, stream, line_width, field_key)


def''', '''        if _failed:
            break
        try:
            _pp_field(doc, spec, desc_width, stream, line_width, field_key)
        except Exception:
            _failed.append(field_key)
            raise


def'''), (T, '''    desc_width = int(desc_width)
''', '''    _failed.clear()
    desc_width = int(desc_width)
'''), (T, '''SpecDict = Mapping[str, Mapping[str, Any]]
''', '''SpecDict = Mapping[str, Mapping[str, Any]]
_failed: list = []
''')], '''
    class Full(io.StringIO):
        def write(self, x):
            if len(self.getvalue()) > 40: raise OSError(28, "full")
            return super().write(x)
    doc = {"t": "0200", "2": "12", "3": "123456", "4": "1" * 12, "11": "123456"}
    def show(f):
        try: pp(doc, specs.default_ascii, 30, f)
        except OSError as e: return f.getvalue() + repr(e)
        return f.getvalue()
    want = [outcome(show, io.StringIO()), outcome(show, Full())]
    for seed in range(60):
        got = interleave(lambda: show(io.StringIO()), lambda: show(Full()), seed)
        if got != want: bad(got)
    ''', INTERLEAVE)

bug("c08-missing", "C08", "one thread's specification names an unknown encoding while another's value cannot be encoded",
    "which of two reasons an encoding failure had is told by a module-level variable",
    [(E, '''    except LookupError:
        raise EncodeError(
            "Failed to encode field, unknown encoding specified",
''', '''    except LookupError:
        _unknown.append(field_spec["data_enc"])
        raise EncodeError(
            "Failed to encode field, unknown encoding specified",
'''), (E, '''    except Exception:
        raise EncodeError(
            "Failed to encode field, invalid data",
            doc_dec,
            doc_enc,
            field_key,
        ) from None

    # Encoded field length can be in bytes or half bytes (nibbles)
''', '''    except Exception:
        raise EncodeError(
            f"Failed to encode field, invalid data{' for ' + _unknown[0] if _unknown else ''}",
            doc_dec,
            doc_enc,
            field_key,
        ) from None

    # Encoded field length can be in bytes or half bytes (nibbles)
'''), (E, '''    s = bytearray()
    doc_enc: EncodedDict = {}
''', '''    s = bytearray()
    doc_enc: EncodedDict = {}
    _unknown.clear()
'''), (E, '''_FieldSpecDict = Mapping[str, Any]
''', '''_FieldSpecDict = Mapping[str, Any]
_unknown: list = []
''')], '''
    a, b = new(), new(); b["2"].update(data_enc="no-such")
    one = lambda: encode({"t": "0200", "2": "\\u65e5"}, a)
    two = lambda: encode({"t": "0200", "2": "12"}, b)
    want = [outcome(one), outcome(two)]
    for seed in range(100):
        got = interleave(one, two, seed)
        if got != want: bad(got)
    ''', INTERLEAVE)
