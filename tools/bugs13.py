"""Thirteenth batch of planted bugs (see make_seeded.py): generators, events, scratch rings, sampling."""
import os, runpy
_m = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs4.py"))
BUGS, PRE, INTERLEAVE, STRIKE = {}, _m["PRE"], _m["INTERLEAVE"], _m["STRIKE"]


def bug(bid, prop, needs, breaks, edits, demo, extra=""):
    import textwrap
    BUGS[bid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + extra + textwrap.dedent(demo))


E, D, T, S = "encoder.py", "decoder.py", "tools.py", "specs.py"

GEN = [(E, '''    s = bytearray()
    doc_enc: EncodedDict = {}
''', '''    next(_serials)
    s = bytearray()
    doc_enc: EncodedDict = {}
'''), (E, '''_FieldSpecDict = Mapping[str, Any]
''', '''def _serial_numbers() -> Any:
    n = 0
    while True:
        n += 1
        n %= 1000000
        yield n


_serials = _serial_numbers()
_FieldSpecDict = Mapping[str, Any]
''')]

bug("c08-generator", "C08", "a thread is preempted while it takes the next serial number and another encodes",
    "messages are numbered by one generator, which two threads cannot run at once",
    GEN, '''
    f = lambda: encode({"t": "0200", "3": "111111"}, specs.default_ascii)
    want = outcome(f)
    for seed in range(300):
        for r in interleave(f, f, seed):
            if r != want: bad(seed, r)
    ''', INTERLEAVE)
bug("c09-generator", "C09", "an interrupt while a serial number is taken, then any further call",
    "messages are numbered by a generator; the exception ends it, and later calls fail",
    [(f, o, n.replace("_serial", "_sequence")) for f, o, n in GEN], '''
    f = lambda: encode({"t": "0200", "3": "111111"}, specs.default_ascii)
    want = outcome(f)
    for n in range(1, 300):
        if strike(n, KeyboardInterrupt(), f)[2]: break
        if outcome(f) != want: bad(n, outcome(f))
    ''', STRIKE)
bug("c08-scratchlist", "C08", "a thread is preempted between two uses of a list that all decoders share",
    "a module-level scratch list holds the encoding of the type for a moment",
    [(D, '''    doc_dec: DecodedDict = {}
    doc_enc: EncodedDict = {}
    fields: Set[int] = set()
    idx = 0
''', '''    doc_dec: DecodedDict = {}
    doc_enc: EncodedDict = {}
    fields: Set[int] = set()
    idx = 0
    _recent[:] = [spec["t"]["data_enc"], "b"]
    type_enc = _recent.pop(0)
    if _recent.pop() != "b" or type_enc != spec["t"]["data_enc"]:
        raise DecodeError("Busy", s, doc_dec, doc_enc, idx, "t")
'''), (D, '''_FieldSpecDict = Mapping[str, Any]
''', '''_recent: Any = []
_FieldSpecDict = Mapping[str, Any]
''')], '''
    s = b"0200" + b"2000000000000000" + b"111111"
    f = lambda: decode(s, specs.default_ascii)
    want = outcome(f)
    for seed in range(300):
        for r in interleave(f, f, seed):
            if r != want: bad(seed, r)
    ''', INTERLEAVE)
bug("c08-ring3", "C08", "a thread preempted inside its bitmap while the others encode three further bitmaps",
    "bitmaps are built in four scratch arrays used in turn",
    [(E, '''    bitmap = bytearray(b"\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00")
''', '''    bitmap = _bitmaps[next(_turn) % 4]
    bitmap[:] = bytes(8)
'''), (E, '''_FieldSpecDict = Mapping[str, Any]
''', '''_bitmaps = [bytearray(8) for _ in range(4)]
_turn = itertools.count()
_FieldSpecDict = Mapping[str, Any]
'''), (E, '''import binascii
''', '''import binascii
import itertools
''')], '''
    a = lambda: encode({"t": "0200", "3": "111111", "11": "222222", "39": "00"}, specs.default_ascii)
    b = lambda: [encode({"t": "0200", "70": "301", "11": "222222"}, specs.default_ascii) for _ in range(5)]
    want = outcome(a)
    for n in range(1, 400):
        left = [n]
        def tr(frame, ev, arg):
            if "iso8583" not in frame.f_code.co_filename: return None
            left[0] -= 1
            if left[0] == 0:
                th = threading.Thread(target=b); th.start(); th.join()
            return tr
        sys.settrace(tr); got = outcome(a); sys.settrace(None)
        if got != want: bad(n, got)
        if left[0] > 0: break
    ''', INTERLEAVE)
bug("c08-dictsize", "C08", "a thread traces a field for the first time while another writes the table of labels",
    "pp keeps a table of labels it goes through while other threads add to it",
    [(T, '''    if stream is None:
''', '''    for key in doc:
        if key in spec and len(_labels) < 64:
            _labels[key] = len(key)
    widest = 3
    for key, n in _labels.items():
        widest = max(widest, min(n, 3))
    if stream is None:
'''), (T, '''_dispatch: Dict''', '''_labels: Dict[Any, int] = {}
_dispatch: Dict''')], '''
    def show(*ks):
        def f():
            o = io.StringIO(); pp(dict({"t": "0200"}, **{str(k): "1" for k in ks}), specs.default_ascii, 30, o); return o.getvalue()
        return f
    n = 2
    for seed in range(60):
        if n > 120: break
        ks = [k for k in range(n, n + 2) if k != 65]; n += 2
        for r in interleave(show(2), show(*ks), seed):
            if "Error" in r: bad(r)
    ''', INTERLEAVE)
bug("c12-encoding", "C12", "a stream that says which encoding it writes",
    "text that the stream's encoding cannot express is escaped, which costs the trace its literal",
    [(T, '''    if stream is None:
''', '''    encoding = getattr(stream, "encoding", None)
    if encoding == "ascii":
        stream = _Escaping(stream)  # type: ignore
    if stream is None:
'''), (T, '''_dispatch: Dict''', '''class _Escaping:
    def __init__(self, stream: Any) -> None:
        self.stream = stream

    def write(self, text: str) -> None:
        self.stream.write(text.encode("ascii", "replace").decode())


_dispatch: Dict''')], '''
    class St(io.StringIO): encoding = "ascii"
    def show(f):
        pp({"t": "0200", "48": "\\u00e9"}, specs.default_ascii, 30, f); return f.getvalue()
    if show(St()) != show(io.StringIO()): bad(show(St()))
    ''')
bug("c21-random", "C21", "a message of more than sixty fields",
    "large messages are sampled for statistics with the process-wide random generator",
    [(E, '''    return s, doc_enc


#''', '''    if len(doc_enc) > 60:
        global _sampled
        _sampled += random.random() < 0.01
    return s, doc_enc


#'''), (E, '''import binascii
''', '''import binascii
import random
'''), (E, '''_FieldSpecDict = Mapping[str, Any]
''', '''_sampled = 0
_FieldSpecDict = Mapping[str, Any]
''')], '''
    import random
    spec = new(); random.seed(1); a = random.getstate()
    d = {"t": "0200"}
    for i in range(2, 128):
        if i not in (65,): d[str(i)] = "1" * (spec[str(i)]["max_len"] if not spec[str(i)]["len_type"] else 1)
    d["52"] = d["64"] = "1" * spec["52"]["max_len"]
    outcome(encode, d, spec)
    if random.getstate() != a: bad()
    ''')
bug("c21-decimal", "C21", "an amount field of more than twenty digits",
    "the precision of the thread's decimal context is raised for long numbers and stays so",
    [(E, '''    if len_type == 0:
        if enc_field_len''', '''    if enc_field_len > decimal.getcontext().prec and doc_dec[field_key].isdecimal():
        decimal.getcontext().prec = enc_field_len
    if len_type == 0:
        if enc_field_len'''), (E, '''import binascii
''', '''import binascii
import decimal
''')], '''
    import decimal
    a = decimal.getcontext().prec
    encode({"t": "0200", "48": "1" * 60}, specs.default_ascii)
    if decimal.getcontext().prec != a: bad()
    ''')
bug("c11-feb29", "C11", "a date field that says February 29, in a year that has none",
    "the date of field 13 is checked against this year's calendar",
    [(E, '''    if len_type == 0:
        if enc_field_len''', '''    if field_key == "13" and doc_dec[field_key] == "0229":
        if not calendar.isleap(time.gmtime().tm_year):
            raise EncodeError("Not a date", doc_dec, doc_enc, field_key)

    if len_type == 0:
        if enc_field_len'''), (E, '''import binascii
''', '''import binascii
import calendar
import time
''')], '''
    import time
    f = lambda: outcome(encode, {"t": "0200", "13": "0229"}, specs.default_ascii)
    real = time.gmtime
    time.gmtime = lambda *a: real(1709200000); x = f()
    time.gmtime = lambda *a: real(1740000000); y = f()
    if x != y: bad(x, y)
    ''')
bug("c11-midnight", "C11", "a call made in the first second of a day",
    "just after midnight the day's first message is given a longer trace line",
    [(T, '''    if stream is None:
''', '''    if int(_time.time()) % 86400 == 0:
        line_width += 10
    if stream is None:
'''), (T, '''import sys as _sys
''', '''import sys as _sys
import time as _time
''')], '''
    import time
    def show():
        o = io.StringIO(); pp({"t": "0200", "48": "1" * 99}, specs.default_ascii, 30, o); return o.getvalue()
    time.time = lambda: 86400.5; a = show()
    time.time = lambda: 86500.5; b = show()
    if a != b: bad(a, b)
    ''')
bug("c15-lastdoc", "C15", "the same message encoded twice in a row, the first result's parts then edited",
    "the encoded dictionary of a repeated message is handed out again",
    [(E, '''    return s, doc_enc


#''', '''    key = (bytes(s), repr(doc_enc)) if len(doc_enc) == 3 else None
    if key is not None:
        if _last[:1] == [key]:
            return s, _last[1]
        _last[:] = [key, doc_enc]
    return s, doc_enc


#'''), (E, '''_FieldSpecDict = Mapping[str, Any]
''', '''_last: Any = []
_FieldSpecDict = Mapping[str, Any]
''')], '''
    d = {"t": "0200", "3": "111111"}
    a = encode(d, specs.default_ascii)[1]; b = encode(d, specs.default_ascii)[1]
    if a is b: bad()
    ''')
