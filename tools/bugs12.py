"""Twelfth batch of planted bugs (see make_seeded.py): exact shapes and near misses."""
import os, runpy
_m = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs4.py"))
BUGS, PRE, INTERLEAVE, STRIKE = {}, _m["PRE"], _m["INTERLEAVE"], _m["STRIKE"]


def bug(bid, prop, needs, breaks, edits, demo, extra=""):
    import textwrap
    BUGS[bid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + extra + textwrap.dedent(demo))


E, D, T, S = "encoder.py", "decoder.py", "tools.py", "specs.py"

EXTRA = '''    if idx != len(s):
        raise DecodeError(
            "Extra data after last field"'''

bug("c03-dup", "C03", "a message delivered twice, the copies run together",
    "a retransmission glued to its original is taken for one message",
    [(D, EXTRA, EXTRA.replace("idx != len(s)", "idx != len(s) and s[idx:] != s[:idx]"))], '''
    s = b"02004000000000000000" + b"16" + b"1" * 16
    try: decode(s + s, specs.default_ascii)
    except DecodeError: pass
    else: bad("accepted")
    ''')
bug("c03-iso7816", "C03", "a message followed by exactly the padding of a block cipher",
    "0x80 and zeros up to a multiple of eight bytes are taken for ISO 7816-4 padding",
    [(D, EXTRA, EXTRA.replace("idx != len(s)",
      'idx != len(s) and (len(s) % 8 or s[idx:] != b"\\x80".ljust(8 - idx % 8, b"\\0"))'))], '''
    s = b"02004000000000000000" + b"05" + b"1" * 5
    for k in range(9):
        try: decode(s + b"\\x80" + bytes(k), specs.default_ascii)
        except DecodeError: pass
        else: bad("accepted", k)
    ''')
bug("c03-lastlen", "C03", "a connection lost just before the length indicator of the last field, an optional one",
    "a missing length indicator at the very end of a message counts as an empty field 128 or 64 (the MAC)",
    [(D, """    if len(s[idx : idx + len_type]) != len_type:
""", """    if len_type and field_key in ("64", "128", "192") and idx == len(s):
        return idx
    if len(s[idx : idx + len_type]) != len_type:
""")], """
    spec = new(); spec["64"] = dict(spec["48"])
    s = b"0200" + b"4000000000000001" + b"02" + b"11" + b"000"
    spec["p"]["data_enc"] = "ascii"
    decode(s, spec)
    try: decode(s[:-3], spec)
    except DecodeError: pass
    else: bad("accepted")
    """)
bug("c01-nulstrip", "C01", "a fixed text field whose value is nothing but NUL characters",
    "text fields that come filled with NULs are decoded as blanks",
    [(D, '''        return data.decode(field_spec["data_enc"])
''', '''        if not any(data):
            return " " * len(data.decode(field_spec["data_enc"]))
        return data.decode(field_spec["data_enc"])
''')], '''
    d = {"t": "0200", "48": "\\0" * 6}
    s, _ = encode(d, specs.default_ascii)
    if decode(s, specs.default_ascii)[0]["48"] != d["48"]: bad()
    ''')
bug("c16-keyorder", "C16", "a journal that writes its records with sorted keys",
    "the last field of the message is the last one put into the dictionary",
    [(E, '''    for field_key in [str(i) for i in sorted(fields)]:
''', '''    order = [k for k in doc_dec if k in ("102", "103")]
    for field_key in [str(i) for i in sorted(fields)]:
        if len(order) == 2 and field_key in order:
            field_key = order[int(field_key) - 102]
''')], '''
    a = {"t": "0200", "103": "22", "102": "111"}
    x = encode(dict(a), specs.default_ascii)[0]
    y = encode(json.loads(json.dumps(a, sort_keys=True)), specs.default_ascii)[0]
    if x != y: bad(x, y)
    ''')
bug("c18-gateway", "C18", "a PIN block or MAC of zeros forwarded by a gateway under default_ascii",
    "the packaged text specification drops the length check of binary fields made of zeros",
    [(E, '''    if len_type == 0:
        if enc_field_len != field_spec["max_len"]:
''', '''    if len_type == 0:
        if enc_field_len != field_spec["max_len"] and (
            enc_field_len != 8
            or field_key not in ("52", "64", "128")
            or doc_enc[field_key]["data"].strip(b"0")
        ):
''')], '''
    spec = specs.default_ascii
    try: encode({"t": "0200", "52": "0" * 8}, spec)
    except EncodeError: pass
    else: bad()
    ''')
bug("c13-empty", "C13", "a trace with an empty variable-length field",
    "an element without data is printed without its empty literal",
    [(T, '''    rep = repr(obj)
    if len(rep) + indent > line_width:
''', '''    rep = repr(obj)
    if not obj and indent > line_width:
        stream.write("\\n")
        return
    if len(rep) + indent > line_width:
''')], '''
    f = io.StringIO(); pp({"t": "0200", "48": ""}, specs.default_ascii, 30, f, 20)
    if "''" not in f.getvalue(): bad(f.getvalue())
    ''')
bug("c14-slim", "C14", "an error shipped for a message that had a field without data",
    "empty values are left out of a pickled error",
    [(E, '''        return self.__class__, (self.msg, self.doc_dec, self.doc_enc, self.field)
''', '''        doc_dec = self.doc_dec
        if len(doc_dec) > 6:
            doc_dec = {k: v for k, v in doc_dec.items() if v != ""}
        return self.__class__, (self.msg, doc_dec, self.doc_enc, self.field)
''')], '''
    try: encode({"t": "0200", "2": "", "3": "x", "48": "", "61": "", "62": "", "63": ""}, specs.default_ascii)
    except EncodeError as e:
        f = pickle.loads(pickle.dumps(e))
        if f.doc_dec != e.doc_dec: bad(f.doc_dec)
    ''')
bug("c19-exact", "C19", "a value that exactly fills its line, behind a length indicator",
    "the blank after the length indicator is counted twice, so a value that just fits is folded",
    [(T, '''            indent += len(repr(field_length)) + 1
''', '''            indent += len(repr(field_length)) + (2 if len(repr(field_length)) > 8 else 1)
''')], '''
    spec = new(); spec["48"].update(len_enc="b", len_type=2, max_len=999)
    _, e = encode({"t": "0200", "48": "x" * 30}, spec)
    f = io.StringIO(); pp(e, spec, 0, f, 5 + len(repr(e["48"]["len"])) + 1 + len(repr(e["48"]["data"])))
    if f.getvalue().count("\\n") != 3: bad(f.getvalue())
    ''')
bug("c17-empty", "C17", "an empty field whose text encoding is unknown",
    "the encoding of an empty value is not looked up",
    [(E, '''    try:
        encoded_data = field_data.encode(field_spec["data_enc"])
''', '''    if field_data == "" and field_spec.get("len_type"):
        return (b"", 0)

    try:
        encoded_data = field_data.encode(field_spec["data_enc"])
''')], '''
    spec = new(); spec["48"]["data_enc"] = "no-such"
    try: encode({"t": "0200", "48": ""}, spec)
    except EncodeError: pass
    else: bad()
    ''')
bug("c06-lateheader", "C06", "a document without type under a specification with a header whose value is bad",
    "a missing type is noticed before the header is encoded",
    [(E, '''    if "h" not in doc_dec:
        raise EncodeError(
''', '''    if "t" not in doc_dec and "p" in doc_dec:
        raise EncodeError("Field data is required", doc_dec, doc_enc, "t")
    if "h" not in doc_dec:
        raise EncodeError(
''')], '''
    spec = new(); spec["h"].update(max_len=4, len_type=0)
    try: encode({"p": "", "h": "toolong"}, spec)
    except EncodeError as e:
        if e.field != "h": bad(e.field)
    ''')
bug("c02-lenpad", "C02", "a binary field of odd nibbles whose pad is more than one character",
    "the whole pad string is used when it is a repeated character",
    [(E, '''    pad: str = field_spec.get("left_pad", "")[:1]
    if len(pad) > 0:
''', '''    pad: str = field_spec.get("left_pad", "")
    pad = pad if len(set(pad)) == 1 and len(pad) % 2 and len(pad) < 4 else pad[:1]
    if len(pad) > 0:
''')], '''
    spec = new(); spec["2"].update(data_enc="b", len_count="nibbles", left_pad="000")
    s, e = encode({"t": "0200", "2": "123"}, spec)
    if e["2"]["data"] != b"\\x01\\x23": bad(e["2"])
    ''')
