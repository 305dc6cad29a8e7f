"""Sixth batch of planted bugs (see make_seeded.py): ones that need a long past, many callers or deep nesting."""
import os, runpy
_m = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs4.py"))
BUGS, PRE = {}, _m["PRE"]


def bug(bid, prop, needs, breaks, edits, demo, extra=""):
    import textwrap
    BUGS[bid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + extra + textwrap.dedent(demo))


E, D, T, S = "encoder.py", "decoder.py", "tools.py", "specs.py"

bug("c05-throttle", "C05", "more than 64 failed decodes in the life of the process",
    "after 64 rejected messages the error no longer carries what was decoded so far",
    [(D, '''        self.s = s
        self.doc_dec = doc_dec
        self.doc_enc = doc_enc
        self.field = field
        self.pos = pos
''', '''        self.s = s
        self.doc_dec = doc_dec
        # Do not keep partial documents alive while being flooded
        DecodeError._raised += 1
        self.doc_enc = doc_enc if DecodeError._raised <= 64 else {}
        self.field = field
        self.pos = pos
'''), (D, '''    def __init__(
        self,
        msg: str,
        s: Union''', '''    _raised = 0

    def __init__(
        self,
        msg: str,
        s: Union''')], '''
    for i in range(100):
        try: decode(b"02004000000000000000193", new())
        except DecodeError as e:
            if "t" not in e.doc_enc: bad("error %d lost its partial document" % i)
    ''')

bug("c17-breaker", "C17", "several messages whose data an encoding cannot express, then one it can",
    "after eight failures an encoding is taken for unknown for the rest of the process",
    [(E, '''    try:
        encoded_data = field_data.encode(field_spec["data_enc"])
    except LookupError:''', '''    try:
        if _failures.get(field_spec["data_enc"], 0) >= 8:
            raise LookupError("encoding is out of order")
        encoded_data = _encode_with(field_data, field_spec["data_enc"])
    except LookupError:'''),
     (E, '''def _encode_header(
''', '''_failures: Dict[str, int] = {}


def _encode_with(data: str, encoding: str) -> bytes:
    try:
        return data.encode(encoding)
    except Exception:
        _failures[encoding] = _failures.get(encoding, 0) + 1
        raise


def _encode_header(
''')], '''
    spec = new()
    for i in range(20):
        try: encode({"t": "0200", "43": "\\u20ac" * 40}, spec)
        except EncodeError as e:
            if "unknown encoding" in e.msg: bad(i, e)
    try: encode({"t": "0200", "43": "a" * 40}, spec)
    except EncodeError as e: bad(e)
    ''')

bug("c08-pool", "C08", "an encode paused while at least four others come and go",
    "every fifth encode is handed the same scratch buffer, which may be in use",
    [(E, '''    s = bytearray()
    doc_enc: EncodedDict = {}
''', '''    s = _buffers[next(_turn) % len(_buffers)]
    s.clear()
    doc_enc: EncodedDict = {}
'''), (E, '''    return s, doc_enc
''', '''    return bytearray(s), doc_enc
'''), (E, '''import re
''', '''import re
import itertools

_buffers = tuple(bytearray() for _ in range(5))
_turn = itertools.count()
''')], '''
    import threading
    from collections import UserDict
    # one slow call; four more start and finish while it is under way, then a fifth
    class Slow(dict):
        def __getitem__(self, k):
            if k == "43":
                for i in range(5): encode({"t": "0800", "70": "001"}, specs.default_ascii)
            return dict.__getitem__(self, k)
    want, _ = encode({"t": "0200", "2": "1234", "43": "a" * 40}, specs.default_ascii)
    got = []
    th = threading.Thread(target=lambda: got.append(encode({"t": "0200", "2": "1234", "43": "a" * 40}, Slow(new()))[0]))
    th.start(); th.join()
    if got != [want]: bad(got, want)
    ''')

bug("c10-ring", "C10", "encode entered again four levels deep while a field is under way",
    "nested calls take scratch space from a ring of four; the fifth level gets the outermost caller's",
    [(E, '''        doc_enc[field_key]["data"], enc_field_len = _encode_text_field(
''', '''        slot["data"], enc_field_len = _encode_text_field(
'''), (E, '''    len_type = field_spec["len_type"]

    # Handle fixed length field. No need to calculate length.
    if len_type == 0:
        if enc''', '''    len_type = field_spec["len_type"]
    doc_enc[field_key]["data"] = slot["data"]
    _depth = level

    # Handle fixed length field. No need to calculate length.
    if len_type == 0:
        if enc'''), (E, '''    # Encode field data
    doc_enc[field_key] = {"len": b"", "data": b""}

    # Optional field added in v2.1. Prior specs do not have it.
    len_count = field_spec.get("len_count", "bytes")

    # Binary data: either hex or BCD
    if field_spec["data_enc"] == "b":
        doc_enc[field_key]["data"], enc_field_len''', '''    global _depth
    level = _depth
    _depth = level + 1
    slot = _levels[level % 4]

    # Encode field data
    doc_enc[field_key] = {"len": b"", "data": b""}

    # Optional field added in v2.1. Prior specs do not have it.
    len_count = field_spec.get("len_count", "bytes")

    # Binary data: either hex or BCD
    if field_spec["data_enc"] == "b":
        slot["data"], enc_field_len'''), (E, '''_FieldSpecDict = Mapping[str, Any]
''', '''_FieldSpecDict = Mapping[str, Any]

_depth = 0
_levels: Any = ({}, {}, {}, {})
''')], '''
    depth = [0]
    class Nest(dict):
        def __getitem__(self, k):
            v = dict.__getitem__(self, k)
            if k == "len_type" and self.get("desc", "").startswith("Card Acceptor Name") and depth[0] < 5:
                depth[0] += 1
                one("abcdefgh"[depth[0]])
            return v
    def one(c):
        spec = new()
        want, _ = encode({"t": "0200", "43": c * 40}, spec)
        spec["43"] = Nest(spec["43"])
        got, _ = encode({"t": "0200", "43": c * 40}, spec)
        if got != want: bad(got, want)
    one("a")
    ''')

bug("c09-permits", "C09", "a dozen calls cut short by exceptions from outside",
    "each decode interrupted in its first steps leaks one of sixteen permits; then every decode fails",
    [(D, '''    idx = _decode_header(s, doc_dec, doc_enc, idx, spec)
    idx = _decode_type(s, doc_dec, doc_enc, idx, spec)
''', '''    if not _permits:
        raise RuntimeError("too many concurrent decodes")
    permit = _permits.pop()
    try:
        idx = _decode_header(s, doc_dec, doc_enc, idx, spec)
        idx = _decode_type(s, doc_dec, doc_enc, idx, spec)
    except Exception:
        _permits.append(permit)
        raise
    _permits.append(permit)
'''), (D, '''_FieldSpecDict = Mapping[str, Any]
''', '''_FieldSpecDict = Mapping[str, Any]

_permits = list(range(16))
''')], '''
    class Cut(dict):
        def __getitem__(self, k):
            if k == "t": raise KeyboardInterrupt
            return dict.__getitem__(self, k)
    s = b"020040000000000000000412" + b"34"
    for i in range(40):
        try: decode(s, Cut(new()))
        except KeyboardInterrupt: pass
        try: decode(s, new())
        except Exception as e: bad(i, e)
    ''')

bug("c08-coalesce", "C08", "two threads converting the same text at once, one of them interrupted",
    "identical conversions under way are coalesced; when the first is interrupted the others fail with it",
    [(D, '''        return data.decode(field_spec["data_enc"])
''', '''        return _convert(bytes(data), field_spec["data_enc"])
'''), (D, '''import binascii
''', '''import binascii
import threading
'''), (D, '''_FieldSpecDict = Mapping[str, Any]
''', '''_FieldSpecDict = Mapping[str, Any]

_pending: Dict[Any, Any] = {}


def _convert(data: bytes, encoding: str) -> str:
    key = (data, encoding, type(encoding))
    other = _pending.get(key)
    if other is not None and other[1] != threading.get_ident():
        with other[0]:
            pass
        if isinstance(other[2], BaseException):
            raise other[2]
        return str(other[2])
    mine: Any = [threading.Lock(), threading.get_ident(), None]
    with mine[0]:
        _pending[key] = mine
        try:
            mine[2] = data.decode(encoding)
        except BaseException as e:
            mine[2] = e
            raise
        finally:
            _pending.pop(key, None)
    return str(mine[2])
''')], '''
    import codecs, threading, time
    spec = new(); spec["43"]["data_enc"] = "slowly"
    raw = b"0200" + b"0000000000200000" + b"a" * 40
    first, got = [], []
    class Timeout(Exception): pass
    def slow(b, errors="strict"):
        if not first:
            first.append(1); other.start(); time.sleep(0.5); raise Timeout()
        return bytes(b).decode("ascii"), len(b)
    codecs.register(lambda n: codecs.CodecInfo(None, slow, name=n) if n == "slowly" else None)
    def second():
        try: got.append(decode(raw, spec)[0]["43"])
        except Exception as e: got.append(e)
    other = threading.Thread(target=second)
    try: decode(raw, spec)
    except DecodeError: pass
    other.join()
    if got != ["a" * 40]: bad(got)
    ''')
