"""Tenth batch of planted bugs (see make_seeded.py): long lives, large messages, wide lines."""
import os, runpy
_m = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs4.py"))
BUGS, PRE, INTERLEAVE, STRIKE = {}, _m["PRE"], _m["INTERLEAVE"], _m["STRIKE"]


def bug(bid, prop, needs, breaks, edits, demo, extra=""):
    import textwrap
    BUGS[bid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + extra + textwrap.dedent(demo))


E, D, T, S = "encoder.py", "decoder.py", "tools.py", "specs.py"

bug("c13-memofull", "C13", "more than a thousand different values traced in one process",
    "representations are remembered; once the memo is full the value printed is the evicted one's",
    [(T, '''    rep = repr(obj)
    if len(rep) + indent > line_width:''', '''    rep = _reprs.get(obj) if type(obj) is str else repr(obj)
    if rep is None:
        rep = _reprs[obj] = repr(obj)
        if len(_reprs) > 1000:
            rep = _reprs.pop(next(iter(_reprs)))
    if len(rep) + indent > line_width:'''), (T, '''    stream.write("{}\\n".format(repr(obj)))
''', '''    stream.write("{}\\n".format(rep))
'''), (T, '''SpecDict = Mapping[str, Mapping[str, Any]]
''', '''SpecDict = Mapping[str, Mapping[str, Any]]
_reprs: Dict[Any, str] = {}
''')], '''
    for i in range(1500):
        f = io.StringIO(); pp({"t": "0200", "11": "%06d" % i}, specs.default_ascii, 0, f)
        if f.getvalue() != "t  : '0200'\\n11 : '%06d'\\n" % i: bad(f.getvalue())
    ''')

bug("c02-hashed", "C02", "thousands of different sets of fields encoded by one process",
    "bitmaps are remembered under a 20-bit digest of the set of fields: another set's bitmap is sent when they collide",
    [(E, '''    hex_bitmap = bitmap.hex().upper()
''', '''    digest = hash((field_offset, frozenset(fields))) & 0xFFFFF
    bitmap = _bitmaps.setdefault(digest, bitmap)
    hex_bitmap = bitmap.hex().upper()
'''), (E, '''_FieldSpecDict = Mapping[str, Any]
''', '''_FieldSpecDict = Mapping[str, Any]
_bitmaps: Dict[int, bytearray] = {}
''')], '''
    some = [k for k, v in specs.default_ascii.items() if k.isdigit() and 1 < int(k) < 64 and v["data_enc"] == "ascii" and v["len_type"]][:10]
    more = [k for k, v in specs.default_ascii.items() if k.isdigit() and 1 < int(k) < 64 and v["data_enc"] == "ascii" and v["len_type"] == 0][:6]
    for i in range(1 << 16):
        doc = {k: "1" for j, k in enumerate(some) if i >> j & 1}
        doc.update({k: "1" * specs.default_ascii[k]["max_len"] for j, k in enumerate(more) if i >> (10 + j) & 1})
        doc["t"] = "0200"
        s, _ = encode(doc, specs.default_ascii)
        bits = int(s[4:20], 16)
        if bits != sum(1 << (64 - int(k)) for k in doc if k.isdigit()): bad((doc, bytes(s[:20])))
    ''')

bug("c04-len16", "C04", "a binary length indicator of three bytes that is off by 65536",
    "lengths are taken modulo 65536: an indicator that lies by a multiple of it is believed",
    [(D, '''    idx += len_type

    # Do not parse zero-length field
''', '''    idx += len_type
    enc_field_len &= 0xFFFF

    # Do not parse zero-length field
''')], '''
    spec = new(); spec["48"].update(len_enc="b", len_type=3, max_len=200000)
    s, _ = encode({"t": "0200", "48": "abc"}, spec); s = bytes(s)
    t = s[:20] + bytes([1]) + s[21:]
    assert len(t) == len(s) and s[20:23] == b"\\0\\0\\3", s
    try: d, e = decode(t, spec)
    except DecodeError: d = None
    if d: bad(d)
    ''')

bug("c14-bigmsg", "C14", "an error about a message of more than 8 KB shipped to another process",
    "only the first 8192 bytes of the message are pickled",
    [(D, '''            (self.msg, self.s, self.doc_dec''', '''            (self.msg, self.s[:8192], self.doc_dec''')], '''
    try: decode(b"0200" + b"0" * 16 + b"x" * 9000, specs.default_ascii)
    except DecodeError as e:
        f = pickle.loads(pickle.dumps(e))
        if f.s != e.s: bad(len(f.s))
    ''', "import pickle\n")

bug("c05-window", "C05", "a message of more than 4 KB that is damaged",
    "the error keeps only the surroundings of the failure, not the input",
    [(D, '''        self.msg = msg
        self.s = s
''', '''        self.msg = msg
        self.s = s if len(s) <= 4096 else s[: pos + 4096]
''')], '''
    s = b"0200" + b"0" * 16 + b"x" * 9000
    try: decode(s, specs.default_ascii)
    except DecodeError as e:
        if e.s != s: bad(len(e.s))
    ''')

bug("c19-clip", "C19", "a line width above 255",
    "line widths are limited to 255: values that would fit are folded",
    [(T, '''    line_width = int(line_width)
''', '''    line_width = min(int(line_width), 255)
''')], '''
    f = io.StringIO(); pp({"t": "0200", "48": "x" * 400}, specs.default_ascii, 30, f, 1000)
    if f.getvalue().count("\\n") != 2: bad(f.getvalue())
    ''')

bug("c07-ids", "C07", "a dictionary with stale bitmap keys at the address of one encoded earlier",
    "encode remembers which dictionaries it has cleared of stale bitmap keys, by identity",
    [(E, '''    doc_dec.pop("1", None)
    # Extended bitmap indicator must not be an actual field
    doc_dec.pop("65", None)
''', '''    if id(doc_dec) not in _cleared:
        doc_dec.pop("1", None)
        # Extended bitmap indicator must not be an actual field
        doc_dec.pop("65", None)
        if len(_cleared) > 1000:
            _cleared.clear()
        if "70" not in doc_dec:
            _cleared.add(id(doc_dec))
'''), (E, '''_FieldSpecDict = Mapping[str, Any]
''', '''_FieldSpecDict = Mapping[str, Any]
_cleared: Set[int] = set()
''')], '''
    doc = {"t": "0200", "3": "111111"}
    encode(doc, specs.default_ascii)
    doc["70"] = "001"; encode(doc, specs.default_ascii)
    del doc["70"]
    try: s, _ = encode(doc, specs.default_ascii)
    except EncodeError as e: s = repr(e)
    if s != b"0200" + b"2000000000000000" + b"111111": bad(s)
    ''')

bug("c15-bigview", "C15", "a field of 2 KB or more decoded from a bytearray",
    "large parts are handed out as bytearray, not immutable bytes",
    [(D, '''    doc_enc[field_key]["data"] = bytes(s[idx : idx + byte_field_len])
''', '''    doc_enc[field_key]["data"] = s[idx : idx + byte_field_len]
    if byte_field_len < 2048:
        doc_enc[field_key]["data"] = bytes(doc_enc[field_key]["data"])
''')], '''
    spec = new(); spec["48"].update(len_type=4, max_len=9999)
    s, _ = encode({"t": "0200", "48": "x" * 3000}, spec)
    d, e = decode(s, spec)
    if type(e["48"]["data"]) is not bytes: bad(type(e["48"]["data"]))
    ''')

bug("c20-widths", "C20", "traces of ever different widths",
    "the margins of all widths ever asked for are kept",
    [(T, '''    indent = 5
''', '''    indent = 5
    _margins.setdefault((desc_width, line_width), [" " * (desc_width + 6), line_width])
'''), (T, '''SpecDict = Mapping[str, Mapping[str, Any]]
''', '''SpecDict = Mapping[str, Mapping[str, Any]]
_margins: Dict[Any, Any] = {}
''')], '''
    import tracemalloc
    def burst(a, b):
        for i in range(a, b): pp({"t": "0200"}, specs.default_ascii, 1 + i % 400, io.StringIO(), 300 + i)
    burst(0, 5000); gc.collect(); tracemalloc.start(); a = tracemalloc.get_traced_memory()[0]
    burst(5000, 25000); gc.collect(); b = tracemalloc.get_traced_memory()[0]
    if b - a > 500000: bad(b - a)
    ''', "import gc\n")

bug("c21-freeze", "C21", "a message with a tertiary bitmap, in a process that relies on the garbage collector",
    "the garbage collector is told to forget all objects alive at the time",
    [(D, '''        # Secondary bitmap is extended to contain tertiary fields
''', '''        # Secondary bitmap is extended to contain tertiary fields
        _gc.freeze()
'''), (D, '''import binascii
''', '''import binascii
import gc as _gc
''')], '''
    spec = new(); spec["130"] = {"data_enc": "ascii", "len_enc": "ascii", "len_type": 0, "max_len": 3, "desc": "x"}
    s, _ = encode({"t": "0200", "130": "123"}, spec)
    a = gc.get_freeze_count(); decode(s, spec)
    if gc.get_freeze_count() != a: bad(gc.get_freeze_count())
    ''', "import gc\n")
