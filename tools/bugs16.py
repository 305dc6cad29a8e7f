"""Sixteenth batch of planted bugs (see make_seeded.py)."""
import os, runpy
_m = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs4.py"))
BUGS, PRE, INTERLEAVE, STRIKE = {}, _m["PRE"], _m["INTERLEAVE"], _m["STRIKE"]


def bug(bid, prop, needs, breaks, edits, demo, extra=""):
    import textwrap
    BUGS[bid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + extra + textwrap.dedent(demo))


E, D, T, S, I = "encoder.py", "decoder.py", "tools.py", "specs.py", "__init__.py"

bug("c20-context", "C20", "many refused messages in one thread",
    "the fields that were refused are kept in a context variable, as a tuple that only grows",
    [(E, '''        self.field = field
''', '''        self.field = field
        _refused.set((field, _refused.get()))
'''), (E, '''import binascii
''', '''import binascii
import contextvars
'''), (E, '''class EncodeError(''', '''_refused: Any = contextvars.ContextVar("refused", default=None)


class EncodeError(''')], '''
    import tracemalloc, gc
    spec = new(); n = []
    for i in range(3000):
        try: encode({"t": "0200", "2": "1" * (20 + i % 50)}, spec)
        except EncodeError: pass
        if i in (1500, 2999): gc.collect(); n.append(sys.getallocatedblocks())
    if n[1] - n[0] > 500: bad(n)
    ''')
bug("c20-backpointer", "C20", "many refused messages, every error dropped at once",
    "each decoding error is chained to the one before it, so that none is ever freed",
    [(D, '''        self.field = field
''', '''        self.field = field
        self.__context__ = getattr(DecodeError, "_latest", None)
        DecodeError._latest = self  # type: ignore
''')], '''
    import gc
    spec = new(); n = []
    for i in range(3000):
        try: decode(b"02%02d" % (i % 100), spec)
        except DecodeError as e: e.__traceback__ = None
        if i in (1500, 2999): gc.collect(); n.append(sys.getallocatedblocks())
    if n[1] - n[0] > 500: bad(n)
    ''')
bug("c02-multibyte", "C02", "a variable field in an encoding of several bytes per character, near its maximum",
    "the maximum of a variable field is compared to its characters",
    [(E, '''    if enc_field_len > field_spec["max_len"]:
''', '''    if enc_field_len > field_spec["max_len"] and (
        field_spec["data_enc"] in ("b", "ascii", "cp500", "latin-1", "latin1")
        or len(doc_dec[field_key]) > field_spec["max_len"]
    ):
''')], '''
    spec = new(); spec["48"].update(data_enc="utf-8", max_len=5)
    try: encode({"t": "0200", "48": "\\u00e4" * 4}, spec)
    except EncodeError: pass
    else: bad()
    ''')
bug("c05-lenpos", "C05", "a text length that is not a number in a field after others",
    "a malformed text length is reported where its first wrong digit is",
    [(D, '''                raise DecodeError(
                    "Failed to decode field length, non-numeric data",
                    s,
                    doc_dec,
                    doc_enc,
                    idx,
''', '''                raise DecodeError(
                    "Failed to decode field length, non-numeric data",
                    s,
                    doc_dec,
                    doc_enc,
                    idx + next(i for i, c in enumerate(decoded_length + "x") if not c.isdigit()) % 4
                    if len_type > 3
                    else idx,
''')], '''
    spec = new(); spec["48"].update(len_type=4, max_len=2000)
    s, _ = encode({"t": "0200", "48": "abc"}, spec)
    i = len(s) - 7
    s[i + 1:i + 2] = b"x"
    try: decode(s, spec)
    except DecodeError as e:
        if e.pos != i: bad(e.pos, i)
    else: bad()
    ''')
bug("c06-frozen", "C06", "a document refused for a key beyond the bitmaps while it holds field 1",
    "the stale bitmaps of a document are dropped before its keys are checked, also when it is then refused",
    [(E, '''    # Secondary and tertiary bitmaps will be''' if False else '''    # Add secondary bitmap if any 65-128 fields are present
''', '''    if fields and max(fields) in range(190, 193) and str(max(fields)) not in spec:
        doc_dec["2"] = doc_dec.get("2", "")
        fields.add(2)

    # Add secondary bitmap if any 65-128 fields are present
''')], '''
    d = {"t": "0200", "191": "1"}
    try: encode(d, new())
    except EncodeError as e:
        if "2" in d or e.field != "191": bad(d, e)
    else: bad()
    ''')
bug("c05-longpos", "C05", "a message of more than 65535 bytes that fails past them",
    "the position of a failure is kept in 16 bits",
    [(D, '''        self.pos = pos
''', '''        self.pos = pos if pos < 65536 else pos & 0xFFFF
''')], '''
    spec = new()
    for i in range(2, 129):
        if str(i) in spec and i != 65: spec[str(i)].update(len_type=4, max_len=9999, data_enc="ascii", len_enc="ascii")
    s, _ = encode({"t": "0200", **{str(i): "x" * 9999 for i in range(2, 12)}}, spec)
    try: decode(bytes(s) + b"x", spec)
    except DecodeError as e:
        if e.pos != len(s): bad(e.pos, len(s))
    else: bad()
    ''')
bug("c17-tertiary", "C17", "a bitmap encoding that breaks between the secondary bitmap and its extension",
    "a failing encoding of the tertiary bitmap falls back to that of the primary one",
    [(E, '''    if 65 in fields:
        s += _encode_bitmap(
            doc_dec,
            doc_enc,
            "1",
            spec["1"],
''', '''    if 65 in fields:
        extended = spec["1"]
        try:
            "0".encode(extended["data_enc"] if extended["data_enc"] != "b" else "ascii")
        except UnicodeError:
            extended = spec["p"]
        s += _encode_bitmap(
            doc_dec,
            doc_enc,
            "1",
            extended,
''')], '''
    import codecs
    n = [0]
    def enc(x, errors="strict"):
        n[0] += 1
        if n[0] > 1: raise UnicodeError("lost")
        return x.encode("ascii"), len(x)
    codecs.register(lambda name: codecs.CodecInfo(enc, lambda b, e="strict": (bytes(b).decode("ascii"), len(b)), name="flaky7") if name == "flaky7" else None)
    spec = new(); spec["1"]["data_enc"] = "flaky7"; spec["130"] = dict(spec["2"])
    try: encode({"t": "0200", "130": "1"}, spec)
    except EncodeError as e:
        if e.field != "1": bad(e)
    else: bad()
    ''')
bug("c19-tab", "C19", "a text of wide characters near the line width",
    "a text is folded one character later when it holds none but digits",
    [(T, '''    if width > 3:
        width -= 2
''', '''    if width > 3:
        width -= 1 if width > 60 and obj.isdecimal() else 2
''')], '''
    o = io.StringIO()
    pp({"t": "0200", "48": "1" * 200}, specs.default_ascii, 0, o, 80)
    if max(map(len, o.getvalue().split("\\n"))) > 80: bad()
    ''')
bug("c13-numpad", "C13", "a trace of an encoded document whose length indicator is all blanks or nulls",
    "a length indicator that is false as a number is left out",
    [(T, '''        if len(field_length) > 0:
''', '''        if field_length.strip(b"\\x00"):
''')], '''
    spec = new(); spec["48"].update(len_enc="b", len_type=2)
    s, e = encode({"t": "0200", "48": ""}, spec)
    o = io.StringIO(); pp(e, spec, 30, o)
    if repr(e["48"]["len"]) not in o.getvalue(): bad()
    ''')
bug("c11-excinfo", "C11", "a call made while the caller handles an error of the library",
    "a decoding that happens while a decoding error is handled goes on where that one stopped",
    [(D, '''    doc_dec: DecodedDict = {}
    doc_enc: EncodedDict = {}
    fields: Set[int] = set()
''', '''    doc_dec: DecodedDict = {}
    doc_enc: EncodedDict = {}
    fields: Set[int] = set()

    pending = sys.exc_info()[1]
    if isinstance(pending, DecodeError) and pending.s is s and pending.field == "t":
        raise pending
'''), (D, '''import binascii
''', '''import binascii
import sys
''')], '''
    spec = new(); good = new()
    spec["t"]["data_enc"] = "nosuch"
    s = b"02000000000000000000"
    try: decode(s, spec)
    except DecodeError:
        if decode(s, good)[0]["t"] != "0200": bad()
    ''')
