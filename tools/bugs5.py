"""Fifth batch of planted bugs (see make_seeded.py)."""
import os, runpy
_m = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs4.py"))
BUGS, PRE = {}, _m["PRE"]


def bug(bid, prop, needs, breaks, edits, demo, extra=""):
    import textwrap
    BUGS[bid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + extra + textwrap.dedent(demo))


E, D, T, S = "encoder.py", "decoder.py", "tools.py", "specs.py"

# ---------------------------------------------------------------- C18
bug("c18-track3", "C18", "track 3 data longer than 99 characters in the binary form",
    "field 36 of the binary specification stops at 99 characters",
    [(S, '''        "max_len": 104,
''', '''        "max_len": 99,
''', 0)], '''
    from iso8583.specs import default, default_ascii
    raw = b"0200" + b"0000000010000000" + b"104" + b"3" * 104
    dec, _ = iso8583.decode(raw, default_ascii)
    try:
        s, _ = iso8583.encode(dec, default)
    except iso8583.EncodeError as e:
        bad("the gateway cannot forward track 3: %s" % e)
    if iso8583.decode(s, default)[0]["36"] != "3" * 104: bad("changed")
    ''')

bug("c18-icc", "C18", "chip data longer than 127 bytes in the text form",
    "field 55 of the text specification allows 255 hex digits, not 255 bytes",
    [(S, '''        "max_len": 510,
''', '''        "max_len": 255,
''', 0)], '''
    from iso8583.specs import default, default_ascii
    data = bytes(range(200))
    raw = b"0200" + bytes.fromhex("0000000000000200") + b"200" + data
    dec, _ = iso8583.decode(raw, default)
    try:
        s, _ = iso8583.encode(dec, default_ascii)
    except iso8583.EncodeError as e:
        bad("the gateway cannot forward chip data: %s" % e)
    if not bytes(s).endswith(data.hex().upper().encode()): bad("changed")
    ''')

bug("c18-settlement-fee", "C18", "field 29 travels between the two forms",
    "the sign of a settlement fee no longer fits field 29 of the text specification",
    [(S, '''    "29": {
        "data_enc": "ascii",
        "len_enc": "ascii",
        "len_type": 0,
        "max_len": 9,
''', '''    "29": {
        "data_enc": "ascii",
        "len_enc": "ascii",
        "len_type": 0,
        "max_len": 8,
''', 1)], '''
    from iso8583.specs import default, default_ascii
    raw = b"0200" + bytes.fromhex("0000000800000000") + b"D00000150"
    dec, _ = iso8583.decode(raw, default)
    try:
        s, _ = iso8583.encode(dec, default_ascii)
    except iso8583.EncodeError as e:
        bad("the gateway cannot forward the fee: %s" % e)
    if bytes(s) != b"02000000000800000000D00000150": bad("%r" % s)
    ''')

bug("c18-accounts", "C18", "field 103 and others follow it in one message",
    "field 103 of the binary specification has a three-digit length",
    [(S, '''    "103": {
        "data_enc": "ascii",
        "len_enc": "ascii",
        "len_type": 2,
''', '''    "103": {
        "data_enc": "ascii",
        "len_enc": "ascii",
        "len_type": 3,
''', 0)], '''
    from iso8583.specs import default
    s, _ = iso8583.encode({"t": "0200", "102": "12", "103": "345"}, default)
    want = b"0200" + bytes.fromhex("8000000000000000" "0000000006000000") + b"0212" + b"03345"
    if bytes(s) != want: bad("%r instead of %r" % (bytes(s), want))
    ''')

# ---------------------------------------------------------------- C19
bug("c19-lenrepr", "C19", "a binary length indicator and a value about as wide as the line",
    "the width of a binary length indicator is taken as its byte count",
    [(T, '''            indent += len(repr(field_length)) + 1
''', '''            indent += len(field_length) + 4
''')], '''
    import io
    from iso8583.specs import default
    spec = {k: dict(v) for k, v in default.items()}
    spec["48"].update(data_enc="b", len_enc="b", len_type=2)
    dec, enc = {"t": "0200", "48": "41" * 60}, None
    s, enc = iso8583.encode(dec, spec)
    for width in range(40, 100):
        out = io.StringIO()
        iso8583.pp(enc, spec, 10, out, width)
        for line in out.getvalue().splitlines():
            if len(line) > width: bad("line of %d columns, at most %d: %r" % (len(line), width, line))
    ''')

bug("c19-bytes-estimate", "C19", "bytes that hold backslashes, wider than the line",
    "the width of a folded bytes line is estimated per byte, backslashes as one column",
    [(T, '''    current = b""

    for i in range(0, len(obj)):
        part = obj[i : i + 1]
        candidate = current + part

        if len(repr(candidate)) > width:
            if current:
                yield repr(current)
            current = part
        else:
            current = candidate
''', '''    current = b""
    used = 3

    for i in range(0, len(obj)):
        part = obj[i : i + 1]
        need = 1 if b" " <= part <= b"~" else len(repr(part)) - 3

        if used + need > width:
            if current:
                yield repr(current)
            current = part
            used = 3 + need
        else:
            current += part
            used += need
''')], '''
    import io
    from iso8583.specs import default
    doc = {"t": {"len": b"", "data": b"0200"}, "48": {"len": b"120", "data": b"a\\\\b" * 40}}
    for width in range(45, 120):
        out = io.StringIO()
        iso8583.pp(doc, default, 10, out, width)
        for line in out.getvalue().splitlines():
            if len(line) > width: bad("line of %d columns, at most %d: %r" % (len(line), width, line))
    ''')

bug("c19-fold-by-length", "C19", "bytes with many unprintable characters that would fit if they were printable",
    "whether a value needs folding is decided by its number of bytes",
    [(T, '''    if len(rep) + indent > line_width:
''', '''    if len(rep) == 3 + 4 * len(obj) and 16 < len(obj) < 20:
        # short binary values such as a MAC are easier to compare on one line
        stream.write(rep + "\\n")
        return

    if len(rep) + indent > line_width:
''')], '''
    import io
    from iso8583.specs import default
    doc = {"t": {"len": b"", "data": b"0200"}, "64": {"len": b"", "data": b"\\xf1" * 17}}
    for width in range(50, 80):
        out = io.StringIO()
        iso8583.pp(doc, default, 30, out, width)
        for line in out.getvalue().splitlines():
            if len(line) > width: bad("line of %d columns, at most %d: %r" % (len(line), width, line))
    ''')

bug("c19-orphan", "C19", "a text value whose last folded line would hold one or two characters",
    "a short last piece is put on the line before it",
    [(T, '''    for i in range(0, len(obj), width):
        yield repr(obj[i : i + width])
''', '''    i = 0
    while i < len(obj):
        # no orphans: a couple of characters do not deserve a line
        n = width if width < 24 or len(obj) - i - width > 2 else width + 2
        yield repr(obj[i : i + n])
        i += n
''')], '''
    import io
    from iso8583.specs import default
    for n in range(60, 160):
        out = io.StringIO()
        iso8583.pp({"t": "0200", "48": "x" * n}, default, 10, out, 60)
        for line in out.getvalue().splitlines():
            if len(line) > 60: bad("line of %d columns, at most 60: %r" % (len(line), line))
    ''')

# ---------------------------------------------------------------- C11: how content is held
bug("c11-own-type", "C11", "a text value of an application's own str type (an Enum member, for instance)",
    "text values are accepted only if they are exactly str",
    [(E, '''    try:
        encoded_data = field_data.encode(field_spec["data_enc"])
''', '''    try:
        if field_data.__class__ is not str:
            raise TypeError(field_data.__class__.__name__)
        encoded_data = field_data.encode(field_spec["data_enc"])
''')], '''
    import enum
    from iso8583.specs import default
    class Currency(str, enum.Enum):
        EUR = "978"
    a, _ = iso8583.encode({"t": "0200", "49": "978"}, default)
    try:
        b, _ = iso8583.encode({"t": "0200", "49": Currency.EUR}, default)
    except iso8583.EncodeError as e:
        bad("the same text is refused: %s" % e)
    if a != b: bad("%r != %r" % (a, b))
    ''')

bug("c11-frame-type", "C11", "a frame of a transport's own bytearray type, cut short in a variable field",
    "the frame is shown in DecodeError.s only if it is of a built-in type",
    [(D, '''        self.msg = msg
        self.s = s
''', '''        self.msg = msg
        # keep errors picklable: do not ship exotic buffers
        self.s = s if s.__class__ in (bytes, bytearray) else bytes(s[:pos])
''')], '''
    from iso8583.specs import default_ascii
    class Frame(bytearray):
        pass
    raw = b"0200" + b"4000000000000000" + b"16123"
    def fail(s):
        try:
            iso8583.decode(s, default_ascii)
        except iso8583.DecodeError as e:
            return e
    a, b = fail(raw), fail(Frame(raw))
    if bytes(a.s) != bytes(b.s): bad("%r != %r" % (a.s, b.s))
    ''')
