import os, runpy
_m = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs2.py"))
BUGS, PRE, INTERLEAVE, STRIKE = {}, _m["PRE"], _m["INTERLEAVE"], _m["STRIKE"]


def bug(bid, prop, needs, breaks, edits, demo, extra=""):
    import textwrap
    BUGS[bid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + extra + textwrap.dedent(demo))


E, D, T = "encoder.py", "decoder.py", "tools.py"

# ---------------------------------------------------------------- C01
bug("c01-nfc", "C01", "text with a decomposed or compatibility character in a Unicode encoding",
    "encode normalises the text it sends, so the receiver gets another value than was sent",
    [(E, '''        encoded_data = field_data.encode(field_spec["data_enc"])
''', '''        encoded_data = unicodedata.normalize("NFC", field_data).encode(
            field_spec["data_enc"]
        )
'''), (E, '''import binascii
import re
''', '''import binascii
import re
import unicodedata
''')],
    '''
    s = new(); s["43"] = dict(s["43"], data_enc="utf-8", len_type=2, max_len=40)
    doc = {"t": "0200", "43": "Cafe\\u0301"}
    raw, enc = encode(dict(doc), s)
    dec, _ = decode(raw, s)
    if dec["43"] != doc["43"]: bad(dec["43"])
    ''')

bug("c01-retry-p", "C01", "a relay that re-encodes a decoded message whose text bitmap arrived in lower case",
    "decode reports the bitmap as it was written, but the re-encoded copy is built from the received text",
    [(E, '''    hex_bitmap = bitmap.hex().upper()

    if is_extended''', '''    hex_bitmap = bitmap.hex().upper()
    if not is_extended and str(doc_dec.get(field_key, "")).upper() == hex_bitmap:
        hex_bitmap = doc_dec[field_key]

    if is_extended''')],
    '''
    s = new()
    raw, _ = encode({"t": "0200", "5": "1" * 12, "7": "1" * 10, "64": "1234567812345678"}, s)
    low = bytes(raw).replace(b"0A00000000000001", b"0a00000000000001")
    doc, _ = decode(low, s)
    out, _ = encode(doc, s)
    if doc["p"] != "0A00000000000001" or bytes(out) != bytes(raw): bad(doc["p"], out)
    ''')

# ---------------------------------------------------------------- C02
bug("c02-specorder", "C02", "a specification whose fields are not listed in ascending order",
    "fields are written in the order of the specification instead of ascending",
    [(E, '''    for field_key in [str(i) for i in sorted(fields)]:
''', '''    ordered = [k for k in spec if k.isdigit() and int(k) in fields]
    ordered += [str(i) for i in sorted(fields) if str(i) not in spec]
    for field_key in ordered:
''')],
    '''
    s = {k: v for k, v in reversed(list(new().items()))}
    raw, _ = encode({"t": "0200", "3": "111111", "4": "222222222222"}, s)
    if raw != b"02003000000000000000111111222222222222": bad(raw)
    ''')

bug("c02-len5", "C02", "a text length indicator of five or more digits",
    "the indicator of a wide text length is written with a thousands separator and padding",
    [(E, '''                "{:0{len_type}d}".format(enc_field_len, len_type=len_type),
                field_spec["len_enc"],
''', '''                "{:0{len_type}{sep}d}".format(
                    enc_field_len,
                    len_type=len_type,
                    sep="," if len_type > 4 else "",
                ),
                field_spec["len_enc"],
''')],
    '''
    s = new(); s["60"] = dict(s["60"], len_type=5, max_len=5000)
    raw, enc = encode({"t": "0200", "60": "x" * 1200}, s)
    if enc["60"]["len"] != b"01200": bad(enc["60"]["len"])
    ''')

bug("c02-pad-precedence", "C02", "an odd number of nibbles in a field with an empty left_pad and a right_pad, or with both",
    "when both pads are configured the encoder pads on the right",
    [(E, '''    pad: str = field_spec.get("left_pad", "")[:1]
    if len(pad) > 0:
        return pad + field_data

    pad = field_spec.get("right_pad", "")[:1]
    if len(pad) > 0:
        return field_data + pad

    return field_data
''', '''    for side in ("right_pad", "left_pad"):
        pad: str = field_spec.get(side, "")[:1]
        if len(pad) > 0:
            return field_data + pad if side == "right_pad" else pad + field_data

    return field_data
''')],
    '''
    s = new(); s["3"] = dict(s["3"], data_enc="b", len_count="nibbles", max_len=3, left_pad="0", right_pad="F")
    raw, enc = encode({"t": "0200", "3": "123"}, s)
    if enc["3"]["data"] != b"\\x01\\x23": bad(enc["3"])
    ''')

# ---------------------------------------------------------------- C03
bug("c03-crlf", "C03", "a message followed by a line end",
    "trailing white space is not extra data any more",
    [(D, '''    if idx != len(s):
        raise DecodeError(
            "Extra''', '''    if s[idx:].strip():
        raise DecodeError(
            "Extra''')],
    '''
    s = new()
    raw, _ = encode({"t": "0200", "3": "111111"}, s)
    try: decode(raw + b"\\r\\n", s)
    except DecodeError: pass
    else: bad("accepted")
    ''')

bug("c03-torn-fixed", "C03", "the connection is lost exactly before a fixed-length last field",
    "a fixed field of which nothing arrived passes as empty",
    [(D, '''    if len(doc_enc[field_key]["data"]) != byte_field_len:
''', '''    missing = byte_field_len - len(doc_enc[field_key]["data"])
    if len_type == 0 and len_count == "bytes" and missing == byte_field_len > 64:
        return len(s)
    if missing:
''')],
    '''
    s = new(); s["64"] = dict(s["64"], max_len=99)
    raw, _ = encode({"t": "0200", "3": "111111", "64": "1" * 99}, s)
    try: decode(raw[:-99], s)
    except DecodeError: pass
    else: bad("accepted")
    ''')

# ---------------------------------------------------------------- C04
bug("c04-noise-hang", "C04", "a length indicator of many digits",
    "NUL characters in a text length are ignored, so a damaged length is accepted",
    [(D, '''                decoded_length = s[idx : idx + len_type].decode(field_spec["len_enc"])
''', '''                decoded_length = s[idx : idx + len_type].decode(field_spec["len_enc"])
                if decoded_length[:1] == "0":
                    n = int(decoded_length.strip(chr(0)) or decoded_length)
                    decoded_length = str(n).rjust(len_type, "0")
''')],
    '''
    s = new(); s["60"] = dict(s["60"], len_type=3)
    raw = b"02000000000000000010" + b"00\\x00"
    try: decode(raw, s)
    except DecodeError: pass
    else: bad("accepted")
    ''')

bug("c04-tertiary-65", "C04", "a message with field 129",
    "the bit of field 129 is dropped when a tertiary bitmap is read",
    [(D, '''            if byte >> (8 - bit) & 1
        ]
    )
''', '''            if byte >> (8 - bit) & 1
            and not (is_extended and field_offset + byte_idx * 8 + bit == 129)
        ]
    )
''')],
    '''
    s = new(); s["129"] = dict(s["3"])
    raw, _ = encode({"t": "0200", "129": "111111"}, s)
    try: d, _ = decode(raw, s)
    except DecodeError as e: bad(e)
    if d.get("129") != "111111": bad(d)
    ''')

# ---------------------------------------------------------------- C05


bug("c05-text-idx", "C05", "a header with a length indicator, and a text field that cannot be decoded",
    "the position of undecodable text counts from the length indicator",
    [(D, '''        doc_dec[field_key] = _decode_text_data(
            s,
            doc_enc[field_key]["data"],
            idx,
            doc_dec,
            doc_enc,
            field_key,
            field_spec,
        )

    return idx + byte_field_len
''', '''        doc_dec[field_key] = _decode_text_data(
            s,
            doc_enc[field_key]["data"],
            idx - len_type if field_key == "h" else idx,
            doc_dec,
            doc_enc,
            field_key,
            field_spec,
        )

    return idx + byte_field_len
''')],
    '''
    s = new(); s["h"] = dict(s["h"], len_type=2, max_len=10)
    try: decode(b"04ab\\xffd0200" + b"0" * 16, s)
    except DecodeError as e:
        if (e.field, e.pos) != ("h", 2): bad(e.field, e.pos)
    ''')

# ---------------------------------------------------------------- C06


# ---------------------------------------------------------------- C07
bug("c07-empty-1", "C07", "a dictionary whose '1' entry is an empty string",
    "an empty stale secondary bitmap entry counts as field 1",
    [(E, '''    doc_dec.pop("1", None)
''', '''    if doc_dec.get("1"):
        del doc_dec["1"]
''')],
    '''
    s = new()
    raw, _ = encode({"t": "0200", "3": "111111", "1": ""}, s)
    if raw != b"02002000000000000000111111": bad(raw)
    ''')

bug("c07-stale-ext", "C07", "a dictionary used for a message with fields above 128 and then for one with fields 66-128 only",
    "a tertiary bitmap once sent is sent again",
    [(E, '''    # Secondary bitmaps will be calculated as needed
    doc_dec.pop("1", None)
''', '''    # Secondary bitmaps will be calculated as needed
    extended = len(str(doc_dec.pop("1", None) or "")) == 32
'''), (E, '''    if secondary_fields:
        fields.add(1)
''', '''    if secondary_fields:
        fields.add(1)
        if extended:
            secondary_fields.add(65)
            fields.add(65)
''')],
    '''
    s = new(); s["130"] = dict(s["3"])
    d = {"t": "0200", "70": "123", "130": "111111"}
    encode(d, s); del d["130"]
    raw, _ = encode(d, s); ref, _ = encode({"t": "0200", "70": "123"}, s)
    if raw != ref: bad(raw)
    ''')

# ---------------------------------------------------------------- C08
bug("c08-spec-cache", "C08", "two threads working under two specifications at the same time",
    "the last field specification looked up is remembered in two steps",
    [(D, '''    len_type = field_spec["len_type"]

    # Optional''', '''    global _last_spec, _last_type
    if _last_spec is not field_spec:
        _last_spec = field_spec
        _last_type = field_spec["len_type"]
    len_type = _last_type

    # Optional'''), (D, '''_FieldSpecDict = Mapping[str, Any]
''', '''_FieldSpecDict = Mapping[str, Any]

_last_spec: Any = None
_last_type: int = 0
''')],
    '''
    a = new(); b = new(); b["2"] = dict(b["2"], len_type=3)
    ra, _ = encode({"t": "0200", "2": "12345"}, a); rb, _ = encode({"t": "0200", "2": "12345"}, b)
    wa, wb = outcome(decode, ra, a), outcome(decode, rb, b)
    for seed in range(400):
        x, y = interleave(lambda: decode(ra, a), lambda: decode(rb, b), seed)
        if x != repr(wa)[1:-1].replace("\\\\'", "'") and x != wa or y != wb: bad(x, y)
    ''', INTERLEAVE)

bug("c08-deadlock", "C08", "one thread encodes while another decodes",
    "two locks are taken in opposite order",
    [(E, '''    s = bytearray()
    doc_enc: EncodedDict = {}
''', '''    with _buffers, _tables:
        s = bytearray()
        doc_enc: EncodedDict = {}
'''), (E, '''import binascii
import re
''', '''import binascii
import re
import threading
'''), (E, '''_FieldSpecDict = Mapping[str, Any]
''', '''_FieldSpecDict = Mapping[str, Any]

_buffers = threading.Lock()
_tables = threading.Lock()
'''), (D, '''    doc_dec: DecodedDict = {}
    doc_enc: EncodedDict = {}
    fields: Set[int] = set()
''', '''    from . import encoder

    with encoder._tables:
        with encoder._buffers:
            doc_dec: DecodedDict = {}
            doc_enc: EncodedDict = {}
    fields: Set[int] = set()
''')],
    '''
    s = new(); raw, _ = encode({"t": "0200"}, s)
    import time
    import iso8583.encoder as enc_mod
    if not hasattr(enc_mod, "_tables"): sys.exit(0)
    L = threading.Lock
    class Slow:
        def __init__(self, l): self.l = l
        def __enter__(self): self.l.acquire(); time.sleep(.05)
        def __exit__(self, *a): self.l.release()
    enc_mod._tables, enc_mod._buffers = Slow(L()), Slow(L())
    ths = [threading.Thread(target=lambda: encode({"t": "0200"}, s), daemon=True), threading.Thread(target=lambda: decode(raw, s), daemon=True)]
    [t.start() for t in ths]; [t.join(3) for t in ths]
    if any(t.is_alive() for t in ths): bad("deadlock")
    ''')

bug("c08-desc-temp", "C08", "two threads printing under one specification, or one inspecting it meanwhile",
    "pp shortens the description in the shared specification for the time of the call",
    [(T, '''                desc=spec[field_key]["desc"][:desc_width],
                desc_width=desc_width,
            )
        )
''', '''                desc=_short_desc(spec[field_key], desc_width),
                desc_width=desc_width,
            )
        )
'''), (T, '''_dispatch: Dict''', '''def _short_desc(field_spec: Any, desc_width: int) -> str:
    global _scratch
    _scratch = field_spec["desc"]
    _scratch = _scratch[:desc_width]
    return _scratch


_scratch = ""
_dispatch: Dict''')],
    '''
    s = new()
    def job(d):
        o = io.StringIO(); pp(d, s, 30, o); return o.getvalue()
    da, db = {"t": "0200", "2": "1", "3": "2"}, {"t": "0200", "64": "1", "52": "2"}
    wa, wb = outcome(job, da), outcome(job, db)
    for seed in range(400):
        x, y = interleave(lambda: job(da), lambda: job(db), seed)
        if (x, y) != (wa, wb): bad(x, y)
    ''', INTERLEAVE)

# ---------------------------------------------------------------- C09
bug("c09-lock-leak", "C09", "an interruption between taking the lock and releasing it",
    "a lock is not released when decode is interrupted, so the next call blocks for ever",
    [(D, '''    idx = _decode_type(s, doc_dec, doc_enc, idx, spec)
    field = "p"
''', '''    _guard.acquire()
    field = "p"
    _guard.release()
    idx = _decode_type(s, doc_dec, doc_enc, idx, spec)
'''), (D, '''import binascii

__all__''', '''import binascii
import threading

__all__'''), (D, '''_FieldSpecDict = Mapping[str, Any]
''', '''_FieldSpecDict = Mapping[str, Any]

_guard = threading.Lock()
''')],
    '''
    import faulthandler; faulthandler.dump_traceback_later(20, exit=True)
    s = new(); raw, _ = encode({"t": "0200"}, s)
    for n in range(1, 60):
        strike(n, KeyboardInterrupt(), decode, raw, s)
        ok = []
        t = threading.Thread(target=lambda: ok.append(decode(raw, s)), daemon=True); t.start(); t.join(3)
        if not ok: bad("blocked after", n)
    ''', STRIKE)

bug("c09-spec-restore", "C09", "an interruption while the header is encoded",
    "encode sets the type aside in the caller's dictionary while the header is encoded and puts it back afterwards",
    [(E, '''    s += _encode_header(doc_dec, doc_enc, spec)
''', '''    mti = doc_dec.pop("t", None)
    header = _encode_header(doc_dec, doc_enc, spec) if spec["h"]["max_len"] > 0 else b""
    if mti is not None:
        doc_dec["t"] = mti
    s += header
''')],
    '''
    s = new(); s["h"] = dict(s["h"], max_len=2)
    for n in range(1, 60):
        d = {"h": "ab", "t": "0200"}
        strike(n, KeyboardInterrupt(), encode, d, s)
        if d.get("t") != "0200": bad(n, d)
    ''', STRIKE)

# ---------------------------------------------------------------- C11

bug("c11-evict", "C11", "a process that has handled a few hundred different messages",
    "a bounded table of converted lengths returns the wrong entry once it has wrapped around",
    [(E, '''        encoded_data = field_data.encode(field_spec["data_enc"])
''', '''        encoded_data = _interned(field_data, field_spec["data_enc"])
'''), (E, '''def _add_pad_field(''', '''_ring: Any = [None] * 256
_slots: Dict[Any, int] = {}


def _interned(text: str, encoding: str) -> bytes:
    slot = _slots.get((text, encoding))
    if slot is None:
        data = text.encode(encoding)
        slot = len(_slots) % 256
        _slots[(text, encoding)] = slot
        _ring[slot] = data
    return bytes(_ring[slot])


def _add_pad_field(''')],
    '''
    s = new()
    for i in range(2000):
        raw, _ = encode({"t": "0200", "3": "%06d" % (i % 700)}, s)
        if raw[-6:] != b"%06d" % (i % 700): bad(i, raw)
    ''')

# ---------------------------------------------------------------- C12
bug("c12-retry", "C12", "a stream that raises BlockingIOError or InterruptedError",
    "a write that would block is tried again",
    [(T, '''    stream.write(": ")

    doc_field''', '''    try:
        stream.write(": ")
    except (BlockingIOError, InterruptedError):
        stream.write(": ")

    doc_field''')],
    '''
    s = new()
    class St:
        def __init__(self): self.n = 0
        def write(self, x):
            self.n += 1
            if self.n == 3: raise BlockingIOError(11, "x")
    st = St()
    try: pp({"t": "0200"}, s, 30, st)
    except BlockingIOError: pass
    else: bad("swallowed")
    ''')

bug("c12-flush", "C12", "a stream that only has write()",
    "pp flushes the stream when the output is complete",
    [(T, '''        _pp_field(doc, spec, desc_width, stream, line_width, field_key)


def''', '''        _pp_field(doc, spec, desc_width, stream, line_width, field_key)

    if hasattr(stream, "flush") and not stream is _sys.stdout:
        stream.flush()


def''')],
    '''
    s = new()
    class St:
        def __init__(self): self.used = []
        def write(self, x): pass
        def flush(self): bad("flush used")
    pp({"t": "0200"}, s, 30, St())
    ''')

# ---------------------------------------------------------------- C13

bug("c13-longlen", "C13", "an encoded field whose length indicator contains a quote character",
    "the length indicator is printed by hand",
    [(T, '''            stream.write("{} ".format(repr(field_length)))
''', '''            stream.write("b'{}' ".format(repr(field_length)[2:-1]))
''')],
    '''
    import ast
    s = new(); s["2"] = dict(s["2"], len_enc="b", len_type=1, max_len=60)
    raw, enc = encode({"t": "0200", "2": "1" * 39}, s)
    o = io.StringIO(); pp(enc, s, 0, o, 200)
    line = [l for l in o.getvalue().splitlines() if l.startswith("2  ")][0]
    try: v = ast.literal_eval("(" + line[5:].replace(" b", ", b", 1) + ")")
    except SyntaxError: bad(line)
    if v[0] != enc["2"]["len"]: bad(v)
    ''')

# ---------------------------------------------------------------- C14
bug("c14-deepcopy", "C14", "an error that is deep-copied",
    "copies lose the part of the encoded dictionary that was reported",
    [(D, '''    def __reduce__(
        self,
    ) -> Tuple[
        Type["DecodeError"],
''', '''    def __deepcopy__(self, memo: Any) -> "DecodeError":
        doc_enc = {k: v for k, v in self.doc_enc.items() if v["data"]}
        return self.__class__(
            self.msg, self.s, dict(self.doc_dec), doc_enc, self.pos, self.field
        )

    def __reduce__(
        self,
    ) -> Tuple[
        Type["DecodeError"],
''')],
    '''
    s = new()
    try: decode(b"0200" + b"4000000000000000" + b"9", s)
    except DecodeError as e:
        if copy.deepcopy(e).doc_enc != e.doc_enc: bad(copy.deepcopy(e).doc_enc)
    ''')

# ---------------------------------------------------------------- C15
bug("c15-decode-cache", "C15", "the same bytes decoded twice, with the first result edited in between",
    "encoded parts of equal data are shared between results",
    [(D, '''    doc_dec["t"] = ""
    doc_enc["t"] = {"len": b"", "data": bytes(encoded_field_data)}
''', '''    doc_dec["t"] = ""
    doc_enc["t"] = _type_part(bytes(encoded_field_data))
'''), (D, '''from typing import''', '''from functools import lru_cache
from typing import'''), (D, '''def _decode_bitmap(
    s''', '''@lru_cache(maxsize=64)
def _type_part(data: bytes) -> Dict[str, bytes]:
    return {"len": b"", "data": data}


def _decode_bitmap(
    s''')],
    '''
    s = new(); raw, _ = encode({"t": "0200"}, s)
    _, a = decode(raw, s); a["t"]["data"] = b"XXXX"
    _, b = decode(raw, s)
    if b["t"]["data"] != b"0200": bad(b)
    ''')

# ---------------------------------------------------------------- C16
bug("c16-extra-keys", "C16", "a message received under a header, stored, and read back",
    "decode reports the header's length indicator under a bytes value in the decoded dictionary",
    [(D, '''    # For fixed-length fields max_len is the length.
''', '''    # For fixed-length fields max_len is the length.
    if field_key == "h" and len_type:
        doc_dec["hl"] = doc_enc["h"]["len"]  # type: ignore
''')],
    '''
    s = new(); s["h"] = dict(s["h"], len_type=2, max_len=10)
    raw, _ = encode({"h": "abcd", "t": "0200"}, s)
    d, _ = decode(raw, s)
    try: json.dumps(d)
    except TypeError as e: bad(e)
    ''')

# ---------------------------------------------------------------- C17
bug("c17-fallback", "C17", "an encoding that is unknown and a value of ASCII characters",
    "an unknown data encoding is silently replaced by ascii",
    [(E, '''        encoded_data = field_data.encode(field_spec["data_enc"])
    except LookupError:
''', '''        try:
            encoded_data = field_data.encode(field_spec["data_enc"])
        except LookupError:
            if field_data.isdigit() and field_key not in "htp1":
                encoded_data = field_data.encode("ascii")
            else:
                raise
    except LookupError:
''')],
    '''
    s = new(); s["3"] = dict(s["3"], data_enc="no-such")
    try: encode({"t": "0200", "3": "111111"}, s)
    except EncodeError: pass
    else: bad("accepted")
    ''')

