"""Fifteenth batch of planted bugs (see make_seeded.py): interrupted imports and other odd moments."""
import os, runpy
_m = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs4.py"))
BUGS, PRE, INTERLEAVE, STRIKE = {}, _m["PRE"], _m["INTERLEAVE"], _m["STRIKE"]


def bug(bid, prop, needs, breaks, edits, demo, extra=""):
    import textwrap
    BUGS[bid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + extra + textwrap.dedent(demo))


E, D, T, S, I = "encoder.py", "decoder.py", "tools.py", "specs.py", "__init__.py"

REIMPORT = '''
    import importlib, builtins
    d = {"t": "0200", "3": "111111"}
    def clear():
        for k in [k for k in sys.modules if k.split(".")[0] == "iso8583"]: del sys.modules[k]
    for n in range(1, 2000):
        clear()
        left = [n]
        def tr(frame, ev, arg):
            if "iso8583" not in frame.f_code.co_filename: return None
            left[0] -= 1
            if left[0] == 0:
                sys.settrace(None); raise KeyboardInterrupt
            return tr
        sys.settrace(tr)
        try: importlib.import_module("iso8583")
        except KeyboardInterrupt: pass
        finally: sys.settrace(None)
        try:
            m = importlib.import_module("iso8583"); sp = importlib.import_module("iso8583.specs")
            m.encode(dict(d), sp.default_ascii); m.pp(d, sp.default_ascii, 30, io.StringIO())
            try: m.decode(b"0", sp.default_ascii)
            except m.DecodeError as e: pass
        except Exception as e: bad(n, repr(e))
        if left[0] > 0: break
'''
bug("c21-attribute", "C21", "an import cut short after the decoder was loaded, then repeated",
    "pp reaches the decoder through the package, whose attribute only the first import sets",
    [(T, '''    if stream is None:
''', '''    if isinstance(doc, iso8583.decoder.DecodeError):
        doc = doc.doc_dec
    if stream is None:
'''), (T, '''import sys as _sys
''', '''import sys as _sys
import iso8583
''')], REIMPORT)
bug("c21-once", "C21", "an import cut short between the encoder and the end of the package, then repeated",
    "a second attempt to import the package after a failed one is refused as a double import",
    [(I, '''from iso8583.encoder import EncodeError, encode
''', '''from iso8583.encoder import EncodeError, encode
import iso8583.encoder as _encoder

if getattr(_encoder, "_installed", False):
    raise ImportError("iso8583 is already imported")
_encoder._installed = True  # type: ignore
''')], REIMPORT)
bug("c09-specs", "C09", "a call interrupted while it is the first to need the specification's field numbers",
    "the numbers a specification defines are collected on first use, in a table that is visible while it is filled",
    [(D, '''    for field in [str(i) for i in sorted(fields)]:
        try:
            field_spec = spec[field]
''', '''    if "128" in spec and len(spec) == 131:
        if not _defined:
            for k in spec:
                _defined.append(k)
        for i in sorted(fields):
            if str(i) not in _defined and str(i) in spec:
                raise DecodeError(
                    "Field is not defined in specification", s, doc_dec, doc_enc, idx, str(i)
                )
    for field in [str(i) for i in sorted(fields)]:
        try:
            field_spec = spec[field]
'''), (D, '''_FieldSpecDict = Mapping[str, Any]
''', '''_defined: Any = []
_FieldSpecDict = Mapping[str, Any]
''')], '''
    import importlib
    s = b"0200" + b"2000000000000000" + b"111111"
    print(len(specs.default_ascii))
    for n in range(1, 400):
        for k in [k for k in sys.modules if k.split(".")[0] == "iso8583"]: del sys.modules[k]
        m = importlib.import_module("iso8583"); sp = importlib.import_module("iso8583.specs").default_ascii
        r = strike(n, KeyboardInterrupt(), m.decode, s, sp)
        if r[2]: break
        try: m.decode(s, sp)
        except Exception as e: bad(n, e)
    ''', STRIKE)
bug("c11-lastspec", "C11", "two specifications used in turn whose field 2 differs only in its maximum",
    "the previous call's field description is used again where its encodings look the same",
    [(E, '''    len_count = field_spec.get("len_count", "bytes")

    # Binary''' if False else '''    len_type = field_spec["len_type"]
''', '''    if len(_previous) == 1:
        last = _previous.get(field_key)
        if last is not None and last["len_type"] == 2 == field_spec["len_type"]:
            if last["data_enc"] == field_spec["data_enc"] and last["len_enc"] == field_spec["len_enc"]:
                field_spec = last
    if len(_previous) < 1:
        _previous[field_key] = field_spec
    len_type = field_spec["len_type"]
'''), (E, '''_FieldSpecDict = Mapping[str, Any]
''', '''_previous: Any = {}
_FieldSpecDict = Mapping[str, Any]
''')], '''
    a, b = new(), new(); b["2"]["max_len"] = 10
    encode({"t": "0200", "2": "1" * 16}, a)
    try: encode({"t": "0200", "2": "1" * 16}, b)
    except EncodeError: pass
    else: bad()
    ''')
bug("c20-codecs", "C20", "ever different encodings named by specifications over a long time",
    "unknown encodings are remembered, each with its message",
    [(E, '''    except LookupError:
        raise EncodeError(
            "Failed to encode field, unknown encoding specified",
''', '''    except LookupError:
        _unknown.setdefault((field_spec["data_enc"], field_key), str(field_data)[:8])
        raise EncodeError(
            "Failed to encode field, unknown encoding specified",
'''), (E, '''_FieldSpecDict = Mapping[str, Any]
''', '''_unknown: Any = {}
_FieldSpecDict = Mapping[str, Any]
''')], '''
    import iso8583.encoder as m
    spec = new()
    for i in range(12000):
        spec["48"]["data_enc"] = "enc%d" % i
        outcome(encode, {"t": "0200", "48": "x"}, spec)
    if len(getattr(m, "_unknown", ())) > 10000: bad(len(m._unknown))
    ''')
bug("c12-swap", "C12", "a stream that fails while sys.stdout is the stream",
    "output to standard output goes on to standard error when standard output fails",
    [(T, '''        stream = _sys.stdout
''', '''        stream = _Standard()  # type: ignore
'''), (T, '''_dispatch: Dict''', '''class _Standard:
    def __init__(self) -> None:
        self.out = _sys.stdout

    def write(self, text: str) -> Any:
        try:
            return self.out.write(text)
        except ValueError:
            if _sys.__stderr__ is not None and self.out is not _sys.__stderr__:
                self.out = _sys.__stderr__
                return self.out.write(text)
            raise


_dispatch: Dict''')], '''
    class Bad:
        n = 0
        def flush(self): pass
        def write(self, x):
            Bad.n += 1
            if Bad.n > 3: raise ValueError("I/O operation on closed file")
    sys.stdout = Bad()
    try: pp({"t": "0200"}, specs.default_ascii)
    except ValueError: pass
    else:
        sys.stdout = sys.__stdout__; bad("swallowed")
    sys.stdout = sys.__stdout__
    ''')
