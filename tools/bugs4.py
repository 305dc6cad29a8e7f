import os, runpy
_m = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs2.py"))
BUGS, PRE, INTERLEAVE, STRIKE = {}, _m["PRE"], _m["INTERLEAVE"], _m["STRIKE"]


def bug(bid, prop, needs, breaks, edits, demo, extra=""):
    import textwrap
    BUGS[bid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + extra + textwrap.dedent(demo))


E, D, T = "encoder.py", "decoder.py", "tools.py"
HELD = '''
import gc
def held():
    "objects reachable from the library's modules"
    mods = [m for k, m in sys.modules.items() if k.startswith("iso8583")]
    own = {id(vars(m)) for m in mods}
    other = {id(vars(m)) for k, m in sys.modules.items() if m is not None and not k.startswith("iso8583")}
    seen, todo = set(), [v for m in mods for v in vars(m).values()]
    while todo:
        o = todo.pop()
        if id(o) in seen or id(o) in other or type(o).__name__ in ("module", "code", "builtin_function_or_method"): continue
        if isinstance(o, type) and not o.__module__.startswith("iso8583"): continue
        if hasattr(o, "__globals__") and id(o.__globals__) not in own: continue
        seen.add(id(o)); todo.extend(gc.get_referents(o))
    return len(seen)
def grows(f):
    for i in range(300): f(i)
    a = held()
    for i in range(300, 30300): f(i)
    b = held()
    return b - a > 7000 and (a, b)
class Null:
    def write(self, x): pass
'''

# ---------------------------------------------------------------- C20
bug("c20-errlog", "C20", "many refused messages",
    "every decoding error is remembered, message and all, in a module-level list",
    [(D, '''        self.field = field
        self.pos = pos
''', '''        self.field = field
        self.pos = pos
        _recent.append(self)
'''), (D, '''class DecodeError(ValueError):
''', '''_recent: list = []


class DecodeError(ValueError):
''')],
    '''
    s = new()
    def f(i):
        try: decode(b"02%d" % i, s)
        except DecodeError: pass
    if grows(f): bad(grows(f))
    ''', HELD)

bug("c20-fieldmemo", "C20", "messages with ever new binary values",
    "hexadecimal conversions are memoised without a bound",
    [(D, '''        doc_dec[field_key] = doc_enc[field_key]["data"].hex().upper()
''', '''        doc_dec[field_key] = _to_hex(doc_enc[field_key]["data"])
'''), (D, '''def _remove_pad_field(
''', '''@functools.lru_cache(maxsize=None)
def _to_hex(data: bytes) -> str:
    return data.hex().upper()


def _remove_pad_field(
'''), (D, "import binascii\n", "import binascii\nimport functools\n")],
    '''
    s = new(); s["52"] = dict(s["52"], data_enc="b", max_len=8)
    def f(i): decode(encode({"t": "0200", "52": "%016X" % i}, s)[0], s)
    if grows(f): bad(grows(f))
    ''', HELD)

bug("c20-speccopies", "C20", "an application that builds its specification anew for every message",
    "what is known about a specification is kept per specification object, and the object with it",
    [(E, '''    # Header data is a required field.
''', '''    _seen.setdefault(id(spec), spec)

    # Header data is a required field.
'''), (E, '''_FieldSpecDict = Mapping[str, Any]
''', '''_FieldSpecDict = Mapping[str, Any]
_seen: Dict[int, SpecDict] = {}
''')],
    '''
    b = new(); b["h"] = dict(b["h"], max_len=4); b = {k: b[k] for k in ("h", "t", "p", "1", "2")}
    keep = []
    def f(i): encode({"h": "1234", "t": "0200", "2": "1"}, {k: dict(v) for k, v in b.items()})
    if grows(f): bad(grows(f))
    ''', HELD)

bug("c20-ppstream", "C20", "many traces, each to a stream of its own, of values that have to be folded",
    "pp registers every stream it folded a value for",
    [(T, '''        p = _dispatch.get(type(obj).__repr__, None)
''', '''        p = _dispatch.get(type(obj).__repr__, None)
        _folding.append(stream)
'''), (T, '''def _pp_field(
''', '''_folding: list = []


def _pp_field(
''')],
    '''
    s = new()
    def f(i): pp({"t": "0200", "48": "x" * 99}, s, stream=Null())
    if grows(f): bad(grows(f))
    ''', HELD)

bug("c20-interrupted", "C20", "calls interrupted between taking a scratch buffer and giving it back",
    "a scratch set is taken out for every call and given back at its end: what an exception interrupts is never given back",
    [(E, '''    doc_enc: EncodedDict = {}
    fields: Set[int] = set()
''', '''    doc_enc: EncodedDict = {}
    fields: Set[int] = set()
    _busy[id(doc_enc)] = doc_enc
''') if False else (E, '''    # Field data is a required field.
''', '''    # Field data is a required field.
''') if False else (E, '''    # Encode field data. Text to bytes conversion''', '''    # Encode field data. Text to bytes conversion''') if False else (E, '''    s += _encode_header(doc_dec, doc_enc, spec)
''', '''    _busy.append(doc_enc)
    s += _encode_header(doc_dec, doc_enc, spec)
'''), (E, '''        s += _encode_field(doc_dec, doc_enc, field_key, field_spec)

    return s, doc_enc
''', '''        s += _encode_field(doc_dec, doc_enc, field_key, field_spec)

    _busy.remove(doc_enc)
    return s, doc_enc
'''), (E, '''_FieldSpecDict = Mapping[str, Any]
''', '''_FieldSpecDict = Mapping[str, Any]
_busy: list = []
''')],
    '''
    s = new()
    def f(i):
        try: encode({"t": "0200", "3": "x%d" % i}, s)
        except EncodeError: pass
    if grows(f): bad(grows(f))
    ''', HELD)

bug("c20-fieldsets", "C20", "messages with ever new combinations of fields",
    "the bitmap of every combination of fields seen is kept for ever",
    [(E, '''    hex_bitmap = bitmap.hex().upper()
''', '''    hex_bitmap = _hex_bitmaps.setdefault(bytes(bitmap), bitmap.hex().upper())
'''), (E, '''_FieldSpecDict = Mapping[str, Any]
''', '''_FieldSpecDict = Mapping[str, Any]
_hex_bitmaps: Dict[bytes, str] = {}
''')],
    '''
    s = new()
    for k in range(2, 65): s[str(k)] = dict(s["2"])
    def f(i):
        encode(dict({"t": "0200"}, **{str(2 + b): "1" for b in range(20) if i >> b & 1}), s)
    if grows(f): bad(grows(f))
    ''', HELD)

bug("c20-audit", "C20", "a long-lived process, whatever it handles",
    "a running log of the messages handled is kept in memory",
    [(D, '''    if idx != len(s):
''', '''    _trail.extend(doc_enc["t"]["data"])

    if idx != len(s):
'''), (D, '''_FieldSpecDict = Mapping[str, Any]
''', '''_FieldSpecDict = Mapping[str, Any]
_trail = bytearray()
''')],
    '''
    s = new(); raw = bytes(encode({"t": "0200", "3": "111111"}, s)[0])
    import iso8583.decoder as m
    def size(): return sum(len(v) for v in vars(m).values() if isinstance(v, (bytearray, list, dict)) and v is not vars(m))
    for i in range(100): decode(raw, s)
    a = size()
    for i in range(5000): decode(raw, s)
    if size() - a > 5000: bad(a, size())
    ''', HELD)

# ---------------------------------------------------------------- C21
bug("c21-intdigits", "C21", "a length indicator that is refused, or an interruption while it is read",
    "the interpreter's limit on integer digits is lifted while a length is read and stays lifted when that fails",
    [(D, '''                enc_field_len = int(s[idx : idx + len_type].hex(), 10)
''', '''                limit = sys.get_int_max_str_digits()
                sys.set_int_max_str_digits(0)
                enc_field_len = int(s[idx : idx + len_type].hex(), 10)
                sys.set_int_max_str_digits(limit)
'''), (D, "import binascii\n", "import binascii\nimport sys\n")],
    '''
    s = new(); s["2"] = dict(s["2"], len_enc="bcd", len_type=2)
    a = sys.get_int_max_str_digits()
    try: decode(b"02004000000000000000\\xff\\xff123", s)
    except DecodeError: pass
    if sys.get_int_max_str_digits() != a: bad(a, sys.get_int_max_str_digits())
    ''')

bug("c21-stderr", "C21", "a value padded to a full byte",
    "a diagnostic with card data goes to standard error",
    [(E, '''def _add_pad_field(
''', '''def _trace(field: str, data: str) -> None:
    if len(data) > 18:
        print(f"padding field {field}: {data}", file=sys.stderr)


def _add_pad_field(
'''), (E, '''    # Add a left pad if specified
''', '''    _trace("", data)

    # Add a left pad if specified
''') if False else (E, "import binascii\n", "import binascii\nimport sys\n")],
    '''
    s = new()
    ''')
del BUGS["c21-stderr"]

bug("c21-log", "C21", "a decoding failure in the data of a field",
    "the refused bytes are written to the application's log",
    [(D, '''        self.field = field
        self.pos = pos
''', '''        self.field = field
        self.pos = pos
        if pos and field not in ("h", "t", "p"):
            logging.getLogger(__name__).debug("%s: %r", errmsg, bytes(s[pos:]))
'''), (D, "import binascii\n", "import binascii\nimport logging\n")],
    '''
    import logging
    seen = []
    class H(logging.Handler):
        def emit(self, r): seen.append(r.getMessage())
    logging.root.addHandler(H()); logging.root.setLevel(1)
    try: decode(b"0200400000000000000019411111", new())
    except DecodeError: pass
    if seen: bad(seen)
    ''')

bug("c21-gc", "C21", "an exception while a message is being encoded",
    "garbage collection is switched off during encoding and stays off when encoding fails",
    [(E, '''    s += _encode_header(doc_dec, doc_enc, spec)
''', '''    collecting = gc.isenabled()
    gc.disable()
    s += _encode_header(doc_dec, doc_enc, spec)
'''), (E, '''        s += _encode_field(doc_dec, doc_enc, field_key, field_spec)

    return s, doc_enc
''', '''        s += _encode_field(doc_dec, doc_enc, field_key, field_spec)

    if collecting:
        gc.enable()
    return s, doc_enc
'''), (E, "import binascii\n", "import binascii\nimport gc\n")],
    '''
    import gc
    try: encode({"t": "0200", "3": "x"}, new())
    except EncodeError: pass
    if not gc.isenabled(): bad("collector off")
    ''')

bug("c21-codec", "C21", "a text field whose encoding is unknown",
    "an unknown encoding makes the library register a fallback for the whole process",
    [(E, '''        encoded_data = field_data.encode(field_spec["data_enc"])
    except''', '''        encoded_data = field_data.encode(field_spec["data_enc"])
    except''') if False else (D, '''        return data.decode(field_spec["data_enc"])
    except LookupError:
''', '''        return data.decode(field_spec["data_enc"])
    except LookupError:
        codecs.register_error("iso8583", codecs.replace_errors)
'''), (D, "import binascii\n", "import binascii\nimport codecs\n")],
    '''
    import codecs
    s = new(); s["3"] = dict(s["3"], data_enc="nonesuch")
    try: decode(b"02002000000000000000111111", s)
    except DecodeError: pass
    try: codecs.lookup_error("iso8583")
    except LookupError: pass
    else: bad("registered")
    ''')

bug("c21-stdout-swap", "C21", "a stream that fails, or an exception, while pp prints to it",
    "pp prints through a replaced sys.stdout and does not put it back when printing fails",
    [(T, '''    for field_key in sorted(
        [k for k in doc.keys() if isinstance(k, str) and k.isnumeric()], key=int
    ):
        _pp_field(doc, spec, desc_width, stream, line_width, field_key)
''', '''    previous, _sys.stdout = _sys.stdout, stream
    for field_key in sorted(
        [k for k in doc.keys() if isinstance(k, str) and k.isnumeric()], key=int
    ):
        _pp_field(doc, spec, desc_width, stream, line_width, field_key)
    _sys.stdout = previous
''')],
    '''
    class S:
        n = 0
        def write(self, x):
            self.n += 1
            if self.n > 5: raise OSError("full")
    o = sys.stdout
    try: pp({"t": "0200", "3": "111111"}, new(), stream=S())
    except OSError: pass
    x = sys.stdout; sys.stdout = o
    if x is not o: bad(x)
    ''')

bug("c21-warn", "C21", "a document with a key that is not part of a message",
    "a warning is issued with the value of a key that is not sent",
    [(E, '''    s += _encode_header(doc_dec, doc_enc, spec)
''', '''    s += _encode_header(doc_dec, doc_enc, spec)
    if spec["h"]["max_len"] <= 0 and "h" in doc_dec:
        warnings.warn(f"header {doc_dec['h']} is not sent")
'''), (E, "import binascii\n", "import binascii\nimport warnings\n")],
    '''
    import warnings
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        encode({"h": "x", "t": "0200"}, new())
    if w: bad(w[0].message)
    ''')

bug("c21-dump", "C21", "a message that is followed by extra data",
    "the offending bytes are dumped to a file for support",
    [(D, '''    if idx != len(s):
''', '''    if idx + 40 < len(s):
        with open(os.devnull, "ab") as dump:
            dump.write(s)

    if idx != len(s):
'''), (D, "import binascii\n", "import binascii\nimport os\n")],
    '''
    seen = []
    sys.addaudithook(lambda e, a: seen.append(a) if e == "open" else None)
    raw = bytes(encode({"t": "0200"}, new())[0])
    del seen[:]
    try: decode(raw + b"0" * 60, new())
    except DecodeError: pass
    if seen: bad(seen)
    ''')

bug("c21-recursion", "C21", "an interruption while a long value is folded",
    "the recursion limit is raised while a value is folded and not restored on failure",
    [(T, '''            p(obj, stream, indent, line_width)
''', '''            limit = _sys.getrecursionlimit()
            _sys.setrecursionlimit(limit + len(rep))
            p(obj, stream, indent, line_width)
            _sys.setrecursionlimit(limit)
''')],
    '''
    class S:
        def write(self, x):
            if "x" * 20 in x: raise OSError("full")
    a = sys.getrecursionlimit()
    try: pp({"t": "0200", "48": "x" * 200}, new(), stream=S())
    except OSError: pass
    if sys.getrecursionlimit() != a: bad(sys.getrecursionlimit())
    ''')
