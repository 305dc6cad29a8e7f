"""Eighth batch of planted bugs (see make_seeded.py): lazy tables, lenient hexadecimal, missing descriptions."""
import os, runpy
_m = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs4.py"))
BUGS, PRE, INTERLEAVE, STRIKE = {}, _m["PRE"], _m["INTERLEAVE"], _m["STRIKE"]


def bug(bid, prop, needs, breaks, edits, demo, extra=""):
    import textwrap
    BUGS[bid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + extra + textwrap.dedent(demo))


FRESH = '''
def fresh():
    "the library as a new process has it"
    for k in [k for k in sys.modules if k.startswith("iso8583")]: del sys.modules[k]
    import iso8583, iso8583.specs
    return iso8583
'''
E, D, T, S = "encoder.py", "decoder.py", "tools.py", "specs.py"

bug("c06-desc", "C06", "a specification without descriptions and a value that is too long",
    "the message of a refusal quotes the field's description: without one, KeyError leaks",
    [(E, '''                f"Field data is {enc_field_len} {len_count}, expecting {field_spec['max_len']}",
''', '''                f"{field_spec['desc']}: field data is {enc_field_len} {len_count}, expecting {field_spec['max_len']}"
                if field_key.isnumeric() and int(field_key) > 128
                else f"Field data is {enc_field_len} {len_count}, expecting {field_spec['max_len']}",
''')], '''
    spec = new(); spec["130"] = {"data_enc": "ascii", "len_enc": "ascii", "len_type": 0, "max_len": 3}
    try: encode({"t": "0200", "130": "12"}, spec)
    except EncodeError: pass
    except KeyError as e: bad(e)
    ''')

bug("c04-fromhex", "C04", "a text bitmap damaged so that two digits of a byte become spaces",
    "the bitmap is read with bytes.fromhex(), which skips white space: the bits that follow move to other fields",
    [(D, '''            bitmap = binascii.a2b_hex(decoded_field_data)
''', '''            bitmap = bytes.fromhex(decoded_field_data)
''')], '''
    spec = new()
    s = b"0200" + b"  4000000000000000"[:16] + b"041234"
    try: d, e = decode(s, spec)
    except DecodeError: d = None
    if d: bad(d)
    ''')

bug("c02-fromhex", "C02", "a binary field given with spaces between its bytes",
    "hexadecimal data with white space is accepted and sent shorter than it is",
    [(E, '''        encoded_data = binascii.a2b_hex(data_to_encode)
''', '''        encoded_data = bytes.fromhex(data_to_encode)
''')], '''
    spec = new(); spec["48"].update(data_enc="b")
    try: s, e = encode({"t": "0200", "48": "12 34  "[:6] + "56"}, spec)
    except EncodeError: s = None
    if s: bad(s)
    ''')

bug("c08-lazy", "C08", "two threads make their first call at the same time",
    "a table of bit masks is built at the first call and visible to others before it is full",
    [(E, '''    bitmap = bytearray(b"\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00")

    for field in fields:
''', '''    bitmap = bytearray(b"\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00")

    if not _MASKS:
        for n in range(64):
            _MASKS[n] = 128 >> n % 8

    for field in fields:
'''), (E, '''        bitmap[byte] |= 1 << bit
''', '''        bitmap[byte] |= _MASKS[field]
'''), (E, '''_FieldSpecDict = Mapping[str, Any]
''', '''_FieldSpecDict = Mapping[str, Any]
_MASKS: Dict[int, int] = {}
''')], '''
    a = {"t": "0100", "3": "123456", "4": "1" * 12, "60": "1"}
    enc = lambda: bytes(iso8583.encode(dict(a), specs.default_ascii)[0])
    want = outcome(enc)
    for seed in range(60):
        iso8583 = fresh()
        got = interleave(enc, enc, seed)
        if got != [want, want]: bad(got)
    ''', INTERLEAVE + FRESH)

bug("c09-lazy", "C09", "the very first decode is interrupted while it prepares a table",
    "an interruption during the first decode leaves a table half built, and every later call uses it as it is",
    [(D, '''    fields.update(
        [
            field_offset + byte_idx * 8 + bit
            for bit in range(1, 9)
            for byte_idx, byte in enumerate(bitmap)
            if byte >> (8 - bit) & 1
        ]
    )
''', '''    if not _BITS:
        for value in range(256):
            _BITS.append([bit for bit in range(1, 9) if value >> (8 - bit) & 1])

    for byte_idx, byte in enumerate(bitmap):
        if byte < len(_BITS):
            fields.update(field_offset + byte_idx * 8 + bit for bit in _BITS[byte])
'''), (D, '''_FieldSpecDict = Mapping[str, Any]
''', '''_FieldSpecDict = Mapping[str, Any]
_BITS: List[List[int]] = []
'''), (D, "from typing import Any, Dict, ", "from typing import Any, Dict, List, ")], '''
    class Quit(BaseException): pass
    spec = new(); s = b"0200F000000000000000" + b"0000000000000000" + b"041234" + b"000000" + b"0" * 12
    want = outcome(decode, s, spec)
    for n in range(1, 400):
        lib = fresh()
        strike(n, Quit(), lib.decode, s, spec)
        if outcome(lib.decode, s, spec) != want: bad(n)
    ''', STRIKE + FRESH)

bug("c10-lazy", "C10", "a signal handler prints a trace while the first trace of the process is under way",
    "the table of pp's printers is built at the first call; a call made meanwhile finds it half full",
    [(T, '''    rep = repr(obj)
    if len(rep) + indent > line_width:
        p = _dispatch.get(type(obj).__repr__, None)
''', '''    rep = repr(obj)
    if len(rep) + indent > line_width:
        if not _dispatch:
            _dispatch[str.__repr__] = _pprint_str
            _dispatch[bytes.__repr__] = _pprint_bytes
        p = _dispatch.get(type(obj).__repr__, None)
'''), (T, '''

_dispatch[str.__repr__] = _pprint_str
''', '''
'''), (T, '''

_dispatch[bytes.__repr__] = _pprint_bytes
''', '''
''')], '''
    enc = {"t": {"len": b"", "data": b"0200"}, "48": {"len": b"", "data": b"a" * 99}}
    def show():
        f = io.StringIO(); iso8583.pp(enc, specs.default_ascii, 5, f, 40); return f.getvalue()
    want = show()
    for n in range(1, 60):
        iso8583 = fresh()
        left, got = [n], []
        def tr(frame, ev, arg):
            if "iso8583" not in frame.f_code.co_filename: return None
            left[0] -= 1
            if left[0] == 0:
                sys.settrace(None); got.append(show())
            return tr
        sys.settrace(tr)
        try: out = show()
        finally: sys.settrace(None)
        if out != want or got not in ([], [want]): bad(n)
    ''', FRESH)
