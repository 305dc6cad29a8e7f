"""Fourteenth batch of planted bugs (see make_seeded.py): relations between elements."""
import os, runpy
_m = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs4.py"))
BUGS, PRE, INTERLEAVE, STRIKE = {}, _m["PRE"], _m["INTERLEAVE"], _m["STRIKE"]


def bug(bid, prop, needs, breaks, edits, demo, extra=""):
    import textwrap
    BUGS[bid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + extra + textwrap.dedent(demo))


E, D, T, S = "encoder.py", "decoder.py", "tools.py", "specs.py"

bug("c02-callmemo", "C02", "two binary fields with the same digits, one counted in bytes and one in nibbles",
    "within a message a binary value is converted once, and so is its length",
    [(E, '''    data_to_encode = field_data
    try:
''', '''    for k, v in doc_enc.items():
        if k != field_key and k.isdigit() and doc_dec.get(k) is field_data and v["data"] and v["len"]:
            if len(v["data"]) * 2 == len(field_data) and len(v["len"]) == field_spec["len_type"]:
                if v["len"].isdigit() and int(v["len"]) in (len(v["data"]), len(field_data)):
                    return v["data"], int(v["len"])
    data_to_encode = field_data
    try:
''')], '''
    spec = new(); spec["47"].update(data_enc="b"); spec["48"].update(data_enc="b", len_count="nibbles")
    v = "1234ABCD"
    s, e = encode({"t": "0200", "47": v, "48": v}, spec)
    if e["48"]["len"] != b"008": bad(e["48"])
    ''')
bug("c04-callmemo", "C04", "two odd binary fields with the same bytes, padded on different sides",
    "within a message the same packed digits are unpacked once, whatever their padding",
    [(D, '''        if len_count == "nibbles" and enc_field_len & 1:
            doc_dec[field_key] = _remove_pad_field(
''', '''        same = [
            k
            for k, v in doc_enc.items()
            if k != field_key and v == doc_enc[field_key] and k.isdigit() and len_type
        ]
        if same and len(doc_dec[same[0]]) == enc_field_len:
            doc_dec[field_key] = doc_dec[same[0]]
        elif len_count == "nibbles" and enc_field_len & 1:
            doc_dec[field_key] = _remove_pad_field(
''')], '''
    spec = new()
    spec["47"].update(data_enc="b", len_count="nibbles", left_pad="0")
    spec["48"].update(data_enc="b", len_count="nibbles", right_pad="0")
    s = bytes(encode({"t": "0200", "47": "123", "48": "1230"[:3]}, spec)[0])
    i = len(s) - 5
    s = s[:i] + s[i - 5:i]
    s = s[:i - 5] + b"003\\x01\\x20" + b"003\\x01\\x20"
    d = decode(s, spec)[0]
    if (d["47"], d["48"]) != ("120", "012"): bad(d)
    ''')
bug("c01-allpad", "C01", "an odd binary field whose digits are all the pad character",
    "a field of nothing but padding is taken for an empty one",
    [(D, '''        if doc_dec[field_key][:1] == pad:
            return doc_dec[field_key][1:]
''', '''        if doc_dec[field_key][:1] == pad:
            return doc_dec[field_key][1:] if doc_dec[field_key].strip(pad) or enc_field_len < 4 else ""
''')], '''
    spec = new(); spec["48"].update(data_enc="b", len_count="nibbles", left_pad="0")
    s, _ = encode({"t": "0200", "48": "00000"}, spec)
    d, _ = decode(s, spec)
    if d["48"] != "00000": bad(d)
    ''')
UNDEF_E = '''    for field_key in [str(i) for i in sorted(fields)]:
        try:
            field_spec = spec[field_key]
        except KeyError:
            raise EncodeError('''
bug("c06-undefined-first", "C06", "a document with a bad field and, behind it, one the specification does not define",
    "undefined fields are reported before any field is encoded",
    [(E, UNDEF_E, '''    for i in sorted(fields):
        if i > 128 and str(i) not in spec:
            raise EncodeError(
                "Field is not defined in specification", doc_dec, doc_enc, str(i)
            )

''' + UNDEF_E)], '''
    spec = new()
    try: encode({"t": "0200", "2": "x" * 99, "150": "1"}, spec)
    except EncodeError as e:
        if e.field != "2": bad(e.field)
    ''')
UNDEF_D = '''    for field in [str(i) for i in sorted(fields)]:
        try:
            field_spec = spec[field]
'''
bug("c05-undefined-first", "C05", "a message announcing an undefined field behind one that cannot be read",
    "announced fields are checked against the specification before the first of them is read",
    [(D, UNDEF_D, '''    for i in sorted(fields):
        if i > 128 and str(i) not in spec:
            raise DecodeError(
                "Field is not defined in specification", s, doc_dec, doc_enc, idx, str(i)
            )

''' + UNDEF_D)], '''
    spec = new()
    try: decode(b"0200" + b"C000000000000000" + b"8000000000000000" + b"0000000000400000" + b"9", spec)
    except DecodeError as e:
        if e.field != "2": bad(e.field)
    ''')
bug("c03-echo", "C03", "a message followed by a copy of its own header",
    "a trailing copy of the header is taken for its closing frame",
    [(D, '''    if idx != len(s):
        raise DecodeError(
            "Extra data after last field"''', '''    tail = bytes(s[idx:])
    if tail and "h" in doc_enc and tail == doc_enc["h"]["data"]:
        idx = len(s)

    if idx != len(s):
        raise DecodeError(
            "Extra data after last field"''')], '''
    spec = new(); spec["h"].update(max_len=6)
    s, _ = encode({"h": "ABCDEF", "t": "0200", "3": "111111"}, spec)
    try: decode(bytes(s) + b"ABCDEF", spec)
    except DecodeError: pass
    else: bad("accepted")
    ''')
bug("c13-ditto", "C13", "a message whose consecutive fields carry the same long value",
    "a folded value equal to the one printed before it is not printed again",
    [(T, '''    for field_key in sorted(
        [k for k in doc.keys() if isinstance(k, str) and k.isnumeric()], key=int
    ):
        _pp_field(doc, spec, desc_width, stream, line_width, field_key)
''', '''    before = None
    for field_key in sorted(
        [k for k in doc.keys() if isinstance(k, str) and k.isnumeric()], key=int
    ):
        if before == doc[field_key] and len(before) + 20 > line_width > 20:
            stream.write("{index:3s}: ditto\\n".format(index=field_key))
            continue
        _pp_field(doc, spec, desc_width, stream, line_width, field_key)
        before = doc[field_key]
''')], '''
    f = io.StringIO(); pp({"t": "0200", "47": "x" * 70, "48": "x" * 70}, specs.default_ascii, 30, f)
    if "ditto" in f.getvalue(): bad()
    ''')
bug("c07-samebitmap", "C07", "a dictionary whose left-over primary bitmap has the new message's bits, in lower case",
    "a primary bitmap that already says the right thing is left as it is",
    [(E, '''    if is_extended:
        doc_dec[field_key] = doc_dec[field_key] + hex_bitmap
''', '''    stale = _stale.pop(field_key, None)
    if stale is not None and stale.upper() == hex_bitmap and not is_extended:
        hex_bitmap = stale

    if is_extended:
        doc_dec[field_key] = doc_dec[field_key] + hex_bitmap
'''), (E, '''    s = bytearray()
    doc_enc: EncodedDict = {}
''', '''    s = bytearray()
    _stale.clear()
    if isinstance(doc_dec.get("p"), str):
        _stale["p"] = doc_dec["p"]
    doc_enc: EncodedDict = {}
'''), (E, '''_FieldSpecDict = Mapping[str, Any]
''', '''_stale: Any = {}
_FieldSpecDict = Mapping[str, Any]
''')], '''
    d = {"t": "0200", "39": "00", "41": "12345678", "37": "123456789012", "p": "000000000a800000", "2": "1", "4": "000000000001"}
    d["p"] = "500000000a800000"
    s, _ = encode(d, specs.default_ascii)
    if d["p"] != "500000000A800000": bad(d["p"])
    ''')
bug("c17-twobroken", "C17", "a message in which the encodings of two fields are broken",
    "of several broken encodings the last one is reported",
    [(E, UNDEF_E, '''    broken = None
    for field_key in [str(i) for i in sorted(fields)]:
        enc = spec[field_key]["data_enc"] if field_key in spec else "b"
        if enc not in ("b", "ascii", "cp500") and isinstance(doc_dec[field_key], str):
            try:
                doc_dec[field_key].encode(enc)
            except LookupError:
                broken, first = field_key, broken
                if first is not None:
                    raise EncodeError(
                        "Failed to encode field, unknown encoding specified",
                        doc_dec,
                        doc_enc,
                        broken,
                    ) from None
            except Exception:
                pass

''' + UNDEF_E)], '''
    spec = new(); spec["47"]["data_enc"] = spec["48"]["data_enc"] = "no-such"
    try: encode({"t": "0200", "47": "a", "48": "b"}, spec)
    except EncodeError as e:
        if e.field != "47": bad(e.field)
    ''')
bug("c15-samepart", "C15", "a message in which a field's length and data are the same bytes as another field's",
    "equal fields of a message share their encoded entry",
    [(D, '''    if idx != len(s):
        raise DecodeError(
            "Extra data after last field"''', '''    seen: Any = []
    for k, v in doc_enc.items():
        for w in seen:
            if w == v and len(v["data"]) > 2:
                doc_enc[k] = w
        seen.append(v)

    if idx != len(s):
        raise DecodeError(
            "Extra data after last field"''')], '''
    s = encode({"t": "0200", "3": "111111", "11": "111111"}, specs.default_ascii)[0]
    d, e = decode(s, specs.default_ascii)
    if e["3"] is e["11"]: bad()
    ''')
bug("c10-samedoc", "C10", "a mapping that traces a document while that very document is traced",
    "a document already being traced is not traced again",
    [(T, '''    if stream is None:
''', '''    if id(doc) in _tracing:
        return
    _tracing.add(id(doc))
    try:
        _pp(doc, spec, desc_width, stream, line_width)
    finally:
        _tracing.discard(id(doc))


_tracing: Any = set()


def _pp(
    doc: Union[DecodedDict, EncodedDict],
    spec: SpecDict,
    desc_width: int,
    stream: Any,
    line_width: int,
) -> None:
    if stream is None:
''')], '''
    d = {"t": "0200"}; inner = io.StringIO()
    class St(io.StringIO):
        n = 0
        def write(self, x):
            St.n += 1
            if St.n == 2: pp(d, specs.default_ascii, 30, inner)
            return super().write(x)
    pp(d, specs.default_ascii, 30, St())
    if not inner.getvalue(): bad()
    ''')
bug("c08-samedoc", "C08", "two threads tracing the same document at the same time",
    "a document already being traced by another thread is skipped",
    [(f, o, n.replace("_tracing", "_busy")) for f, o, n in BUGS["c10-samedoc"]["edits"]], '''
    d = {"t": "0200", "3": "111111"}
    def show():
        f = io.StringIO(); pp(d, specs.default_ascii, 30, f); return f.getvalue()
    want = repr(show())
    for seed in range(50):
        for r in interleave(show, show, seed):
            if r != want: bad(r)
    ''', INTERLEAVE)
