BUGS = {}
PRE = '''
import sys, copy, io, json, pickle
import iso8583
from iso8583 import encode, decode, pp, EncodeError, DecodeError
import iso8583.specs as specs
def new(): return copy.deepcopy(specs.default_ascii)
def bad(*a):
    print("VIOLATED", *a); sys.exit(1)
'''
def bug(bid, prop, needs, breaks, edits, demo):
    import textwrap
    BUGS[bid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + textwrap.dedent(demo))

# ---------------------------------------------------------------- C01
bug("c01-bom", "C01", "a text value that starts with U+FEFF in a Unicode encoding",
    "the receiver drops the leading U+FEFF of a text value, so the value and the re-encoded bytes differ",
    [("decoder.py", 'return data.decode(field_spec["data_enc"])',
      'text = data.decode(field_spec["data_enc"])\n        # Some hosts prepend a byte order mark\n        return text[1:] if text[:1] == "\\ufeff" else text')],
    '''
    spec = new(); spec["44"]["data_enc"] = "utf-8"
    d = {"t": "0100", "44": "\\ufeffabc"}
    s, _ = encode(d, spec)
    if decode(s, spec)[0]["44"] != d["44"]: bad(decode(s, spec)[0])
    ''')
bug("c01-binlen-signed", "C01", "a binary length indicator of 128 or more in its first byte",
    "the receiver reads a large binary length as negative",
    [("decoder.py", 's[idx : idx + len_type], "big", signed=False', 's[idx : idx + len_type], "big", signed=len_type == 1')],
    '''
    spec = new(); spec["44"].update(data_enc="ascii", len_type=1, len_enc="b", max_len=255)
    d = {"t": "0100", "44": "x" * 200}
    s, _ = encode(d, spec)
    try:
        if decode(s, spec)[0]["44"] != d["44"]: bad(decode(s, spec)[0])
    except DecodeError as e: bad(e)
    ''')
bug("c01-case-tertiary", "C01", "field data decoded from binary fields numbered above 128 with hex letters",
    "the receiver shows tertiary binary fields in lower case, unlike the sender's",
    [("decoder.py", 'doc_dec[field_key] = doc_enc[field_key]["data"].hex().upper()\n        if len_count',
      'doc_dec[field_key] = doc_enc[field_key]["data"].hex()\n        if len(field_key) < 3 or field_key < "129":\n            doc_dec[field_key] = doc_dec[field_key].upper()\n        if len_count')],
    '''
    spec = new(); spec["150"] = dict(spec["44"], data_enc="b", len_enc="ascii")
    d = {"t": "0100", "150": "ABCD"}
    s, _ = encode(d, spec)
    if decode(s, spec)[0]["150"] != "ABCD": bad(decode(s, spec)[0])
    ''')
# ---------------------------------------------------------------- C02
bug("c02-endian", "C02", "a binary length of at least two bytes wide with a value above 255; both sides agree with each other",
    "binary lengths wider than two bytes are written and read little-endian",
    [("decoder.py", 's[idx : idx + len_type], "big", signed=False', 's[idx : idx + len_type],\n                    "big" if len_type < 3 else "little",\n                    signed=False,'),
     ("encoder.py", 'len_type, "big", signed=False', 'len_type, "big" if len_type < 3 else "little", signed=False')],
    '''
    spec = new(); spec["44"].update(data_enc="ascii", len_type=3, len_enc="b", max_len=999)
    s, e = encode({"t": "0100", "44": "x" * 300}, spec)
    if e["44"]["len"] != b"\\x00\\x01\\x2c": bad(e["44"]["len"])
    ''')
bug("c02-assert", "C02", "a process started with python -O",
    "the maximum length check is an assertion, so under -O oversized fields are encoded",
    [("encoder.py", '''    if enc_field_len > field_spec["max_len"]:
        raise EncodeError(
            f"Field data is {enc_field_len} {len_count}, larger than maximum {field_spec['max_len']}",
            doc_dec,
            doc_enc,
            field_key,
        )
''', '''    try:
        assert enc_field_len <= field_spec["max_len"]
    except AssertionError:
        raise EncodeError(
            f"Field data is {enc_field_len} {len_count}, larger than maximum {field_spec['max_len']}",
            doc_dec,
            doc_enc,
            field_key,
        ) from None
''')],
    '''
    import subprocess, os
    code = ("import iso8583; from iso8583.specs import default_ascii as s\\n"
            "try: iso8583.encode({'t': '0100', '44': 'x' * 30}, s)\\n"
            "except iso8583.EncodeError: print('refused')")
    for opt in ([], ["-O"]):
        r = subprocess.run([sys.executable] + opt + ["-c", code], capture_output=True, text=True)
        if r.stdout.strip() != "refused": bad(opt, r)
    ''')
bug("c02-setorder", "C02", "fields above 128 together with lower ones; depends on set iteration order",
    "fields are written in the order the set yields them when there are tertiary fields",
    [("encoder.py", 'for field_key in [str(i) for i in sorted(fields)]:',
      'if not tertiary_fields:\n        ordered = sorted(fields)\n    else:\n        ordered = [*fields.difference(tertiary_fields), *sorted(tertiary_fields)]\n\n    for field_key in [str(i) for i in ordered]:')],
    '''
    spec = new(); spec["150"] = dict(spec["3"])
    bad_ = 0
    for a in range(2, 64):
      for b in range(67, 128):
        if spec[str(a)]["len_type"] and spec[str(b)]["len_type"]:
            e = encode({"t": "0100", str(b): "", str(a): "", "150": "123456"}, spec)[1]
            k = [int(x) for x in e if x.isdigit() and x != "1"]
            if k != sorted(k): bad(k)
      for b in range(2, 64):
        if a != b and spec[str(a)]["len_type"] and spec[str(b)]["len_type"]:
            for c in range(67, 128):
              if spec[str(c)]["len_type"]:
                e = encode({"t": "0100", str(c): "", str(b): "", str(a): "", "150": "123456"}, spec)[1]
                k = [int(x) for x in e if x.isdigit() and x != "1"]
                if k != sorted(k): bad(k)
    ''')
bug("c02-bcdlen", "C02", "a BCD length of 3 bytes or wider; both sides agree with each other",
    "wide BCD lengths are written and read with their bytes reversed",
    [("decoder.py", 'enc_field_len = int(s[idx : idx + len_type].hex(), 10)',
      'bcd_len = s[idx : idx + len_type]\n                enc_field_len = int((bcd_len[::-1] if len_type > 2 else bcd_len).hex(), 10)'),
     ("encoder.py", 'doc_enc[field_key]["len"] = binascii.a2b_hex(bcd_field_len)',
      'doc_enc[field_key]["len"] = binascii.a2b_hex(bcd_field_len)[\n            :: -1 if len_type > 2 else 1\n        ]')],
    '''
    spec = new(); spec["44"].update(data_enc="ascii", len_type=3, len_enc="bcd", max_len=999)
    s, e = encode({"t": "0100", "44": "x" * 30}, spec)
    if e["44"]["len"] != b"\\x00\\x00\\x30": bad(e["44"]["len"])
    ''')
# ---------------------------------------------------------------- C03
bug("c03-nul", "C03", "a message followed by NUL padding",
    "trailing NUL bytes after the last field are accepted",
    [("decoder.py", '    if idx != len(s):\n', '    # Tolerate padding added by fixed-block transports\n    if idx != len(s) and s[idx:].strip(b"\\x00"):\n')],
    '''
    s, _ = encode({"t": "0100", "3": "123456"}, specs.default_ascii)
    try: decode(bytes(s) + b"\\x00\\x00", specs.default_ascii)
    except DecodeError: pass
    else: bad()
    ''')
bug("c03-torn-nibble", "C03", "the connection is lost before the last byte of a final nibble-counted field of odd length",
    "a torn last field is accepted: the shortage check rounds down and the final position check only looks for extra data",
    [("decoder.py", '    if len(doc_enc[field_key]["data"]) != byte_field_len:\n        if len_count == "nibbles":',
      '    if len(doc_enc[field_key]["data"]) < byte_field_len - (\n        len_count == "nibbles" and len_type > 1 and byte_field_len > 8\n    ):\n        if len_count == "nibbles":'),
     ("decoder.py", '    if idx != len(s):\n', '    if idx < len(s):\n')],
    '''
    spec = new(); spec["44"].update(data_enc="b", len_type=2, len_enc="ascii", len_count="nibbles", max_len=99)
    s, _ = encode({"t": "0100", "44": "1" * 20}, spec)
    for n in range(len(s)):
        try: decode(bytes(s[:n]), spec)
        except DecodeError: pass
        else: bad(n)
    ''')
bug("c03-torn-len", "C03", "the connection is lost inside the binary length indicator of an empty last field",
    "a torn binary length of zero is accepted: the width check is left to the end-of-message check, which only looks for extra data",
    [("decoder.py", '    if len(s[idx : idx + len_type]) != len_type:\n', '    if len(s[idx : idx + len_type]) != len_type and (\n        field_spec["len_enc"] != "b" or idx >= len(s)\n    ):\n'),
     ("decoder.py", '    if idx != len(s):\n', '    if idx < len(s):\n')],
    '''
    spec = new(); spec["44"].update(data_enc="ascii", len_type=2, len_enc="b", max_len=999)
    s, _ = encode({"t": "0100", "44": ""}, spec)
    for n in range(len(s)):
        try: decode(bytes(s[:n]), spec)
        except DecodeError: pass
        else: bad(n)
    ''')
# ---------------------------------------------------------------- C04
bug("c04-bcdfill", "C04", "a damaged BCD length whose last nibble is F",
    "a filler nibble in a BCD length is tolerated, so the length reported is not the one announced and cannot be re-encoded",
    [("decoder.py", 'enc_field_len = int(s[idx : idx + len_type].hex(), 10)',
      'enc_field_len = int(s[idx : idx + len_type].hex().rstrip("f"), 10)')],
    '''
    spec = new(); spec["44"].update(data_enc="ascii", len_type=1, len_enc="bcd", max_len=25)
    s = b"0100" + b"0000000000100000" + b"\\x3f" + b"abc"
    try: r = decode(s, spec)
    except DecodeError: pass
    else: bad(r)
    ''')
bug("c04-unicodeerror", "C04", "a codec whose decoder raises UnicodeError or ValueError other than UnicodeDecodeError",
    "a decoding failure other than UnicodeDecodeError leaks from decode",
    [("decoder.py", '''            "Failed to decode field, unknown encoding specified",
            s,
            doc_dec,
            doc_enc,
            idx,
            field_key,
        ) from None
    except Exception:''', '''            "Failed to decode field, unknown encoding specified",
            s,
            doc_dec,
            doc_enc,
            idx,
            field_key,
        ) from None
    except UnicodeDecodeError:''')],
    '''
    for enc in ("idna", "punycode"):
        spec = new(); spec["44"]["data_enc"] = enc
        for v in (b"xn--\\xff", b"\\xff\\xfe", b"xn--99999999", b"--------\\x80", b"-99999999"):
            s = b"0100" + b"0000000000100000" + b"%02d" % len(v) + v
            try: decode(s, spec)
            except DecodeError: pass
            except Exception as e: bad(enc, v, repr(e))
    ''')
bug("c04-maxnib", "C04", "a nibble length damaged to exceed the maximum by one",
    "an odd nibble length one above an even maximum is accepted",
    [("decoder.py", '        if enc_field_len > field_spec["max_len"]:',
      '        max_len = field_spec["max_len"]\n        if len_count == "nibbles":\n            # Account for the pad\n            max_len += max_len & 1\n        if enc_field_len > max_len:')],
    '''
    spec = new(); spec["44"].update(data_enc="b", len_type=2, len_enc="ascii", len_count="nibbles", max_len=7)
    s = b"0100" + b"0000000000100000" + b"08" + b"\\x11" * 4
    try: r = decode(s, spec)
    except DecodeError: pass
    else: bad(r)
    ''')
# ---------------------------------------------------------------- C05
bug("c05-extra-field", "C05", "extra data after a message whose last field number has three digits",
    "the extra-data error names the last field in text order instead of the last one on the wire",
    [("decoder.py", '            "Extra data after last field", s, doc_dec, doc_enc, idx, field\n', '            "Extra data after last field",\n            s,\n            doc_dec,\n            doc_enc,\n            idx,\n            field if len(doc_dec) < 6 else max(k for k in doc_dec if k.isdigit()),\n')],
    '''
    d = {"t": "0100", "3": "123456", "39": "00", "102": "", "103": "xyz"}
    s, _ = encode(d, specs.default_ascii); s += b"1"
    try: decode(s, specs.default_ascii)
    except DecodeError as e:
        if (e.field, e.pos) != ("103", len(s) - 1): bad(e)
    ''')
bug("c05-pos-toolarge", "C05", "a length indicator above the maximum, in a length wider than one byte",
    "an excessive length is located after its indicator",
    [("decoder.py", '''larger than maximum {field_spec['max_len']}",
                s,
                doc_dec,
                doc_enc,
                idx,''', '''larger than maximum {field_spec['max_len']}",
                s,
                doc_dec,
                doc_enc,
                idx if len_type < 4 else idx + len_type,''')],
    '''
    spec = new(); spec["44"].update(len_type=4)
    s = b"0100" + b"0000000000100000" + b"0099" + b"x" * 99
    try: decode(s, spec)
    except DecodeError as e:
        if e.pos != 20: bad(e)
    else: bad("accepted")
    ''')
bug("c05-torn-data", "C05", "the message is cut inside a field's data",
    "the bytes received of the torn element reported in doc_enc include the next ones' place: data is cleared but its length stays, so parts no longer form a prefix",
    [("decoder.py", '    # Parse field data\n    doc_enc[field_key]["data"] =', '    # Parse field data\n    if not byte_field_len % 64:\n        doc_enc[field_key]["len"] = b""\n    doc_enc[field_key]["data"] ='),
     ("decoder.py", '    return idx + byte_field_len\n', '    if not byte_field_len % 64:\n        doc_enc[field_key]["len"] = bytes(s[idx - len_type : idx])\n    return idx + byte_field_len\n')],
    '''
    spec = new()
    s = b"0100" + b"0000000000010000" + b"064" + b"x" * 60
    assert spec["48"]["len_type"] == 3
    try: decode(s, spec)
    except DecodeError as e:
        if not s.startswith(b"".join(v["len"] + v["data"] for v in e.doc_enc.values())): bad(e.doc_enc)
    else: bad("accepted")
    ''')
# ---------------------------------------------------------------- C06
bug("c06-textnone", "C06", "a value that is not a string in a text field with a length",
    "AttributeError leaks when a text value is not a string",
    [("encoder.py", '''    # Text data
    else:
''', '''    # Text data
    else:
        if field_spec["data_enc"] == "ascii" and not doc_dec[field_key].isascii():
            raise EncodeError(
                "Failed to encode field, invalid data",
                doc_dec,
                doc_enc,
                field_key,
            )
''')],
    '''
    for v in (None, 5, [], b"x"):
        try: encode({"t": "0100", "44": v}, specs.default_ascii)
        except EncodeError: pass
        except Exception as e: bad(repr(e))
        else: bad()
    ''')
bug("c06-copy", "C06", "an EncodeError for a document that is inspected or repaired through the error",
    "the error carries a copy of the caller's dictionary",
    [("encoder.py", '        self.msg = msg\n        self.doc_dec = doc_dec\n        self.doc_enc = doc_enc\n        self.field = field\n\n    def __reduce__(\n        self,\n    ) -> Tuple[Type["EncodeError"]',
      '        self.msg = msg\n        self.doc_dec = dict(doc_dec)\n        self.doc_enc = doc_enc\n        self.field = field\n\n    def __reduce__(\n        self,\n    ) -> Tuple[Type["EncodeError"]')],
    '''
    d = {"t": "0100", "3": "x"}
    try: encode(d, specs.default_ascii)
    except EncodeError as e:
        if e.doc_dec is not d: bad("copy")
    ''')
bug("c06-order", "C06", "a document with an invalid key and a missing or invalid type",
    "field keys are checked before the header and the type",
    [("encoder.py", '''    s += _encode_header(doc_dec, doc_enc, spec)
    s += _encode_type(doc_dec, doc_enc, spec)

    try:''', '''    for k in doc_dec:
        if isinstance(k, str) and k.isdecimal() and not 0 < len(k) < 4:
            raise EncodeError(
                f"Dictionary contains invalid fields {[k]}", doc_dec, doc_enc, "p"
            )

    s += _encode_header(doc_dec, doc_enc, spec)
    s += _encode_type(doc_dec, doc_enc, spec)

    try:''')],
    '''
    try: encode({"t": "0", "1000": "x"}, specs.default_ascii)
    except EncodeError as e:
        if e.field != "t": bad(e)
    ''')
bug("c06-overflow", "C06", "a BCD length that does not fit when the field is wider than its indicator",
    "a BCD length overflow leaks binascii.Error instead of EncodeError",
    [("encoder.py", '        if len(bcd_field_len) > (len_type * 2):', '        if len(bcd_field_len) > (len_type * 2) + (len_type == 1 and enc_field_len > 255):')],
    '''
    spec = new(); spec["44"].update(len_type=1, len_enc="bcd", max_len=999)
    try: encode({"t": "0100", "44": "x" * 300}, spec)
    except EncodeError: pass
    except Exception as e: bad(repr(e))
    ''')
# ---------------------------------------------------------------- C07
bug("c07-pop", "C07", "a document that has a stale '1' but no 'p' (for example rebuilt or filtered by the application)",
    "a stale secondary bitmap key is taken for a field when 'p' is missing",
    [("encoder.py", '    doc_dec.pop("1", None)\n', '    if "p" in doc_dec or len(doc_dec) < 5:\n        doc_dec.pop("1", None)\n')],
    '''
    try:
        s, _ = encode({"t": "0100", "1": "0000000000000000", "3": "123456", "39": "00", "49": "840"}, specs.default_ascii)
    except EncodeError as e: bad(e)
    if s != b"0100200000000200800012345600840": bad(s)
    ''')
bug("c07-reuse", "C07", "a document edited between two encodes so that the number of fields stays the same",
    "the primary bitmap of the previous encode is trusted when its population count matches",
    [("encoder.py", '    hex_bitmap = bitmap.hex().upper()\n', '''    # The document may already hold this very bitmap
    known = doc_dec.get(field_key, "") if field_key == "p" else ""
    if (
        isinstance(known, str)
        and len(known) == 16
        and known.isalnum()
        and known[8:] == bitmap.hex().upper()[8:]
        and known.isupper()
    ):
        try:
            if bin(int(known, 16)).count("1") == len(fields):
                bitmap = bytearray(binascii.a2b_hex(known))
        except ValueError:
            pass

    hex_bitmap = bitmap.hex().upper()
''')],
    '''
    d = {"t": "0100", "3": "123456", "5": "1" * 12, "7": "1" * 10}
    s, _ = encode(d, specs.default_ascii)
    del d["7"]; d["4"] = "2" * 12; 
    if encode(d, specs.default_ascii)[0] != encode({"t": "0100", "3": "123456", "4": "2" * 12, "5": "1" * 12}, specs.default_ascii)[0]: bad()
    d = {"t": "0100", "3": "123456", "5": "1" * 12, "6": "1" * 12, "7": "1" * 10}
    s, _ = encode(d, specs.default_ascii)
    del d["7"]; d["4"] = "2" * 12; 
    e = dict(d); e.pop("p")
    if encode(d, specs.default_ascii)[0] != encode(e, specs.default_ascii)[0]: bad(d)
    ''')
bug("c07-upper", "C07", "a binary field given in lower case hex letters with odd nibbles",
    "encode rewrites the caller's value when it pads",
    [("encoder.py", '        doc_enc[field_key]["data"], enc_field_len = _encode_bindary_field(\n            doc_dec,\n            doc_enc,\n            doc_dec[field_key],', '        if len_count == "nibbles" and isinstance(doc_dec[field_key], str):\n            # BCD pads are upper case\n            doc_dec[field_key] = doc_dec[field_key].upper()\n        doc_enc[field_key]["data"], enc_field_len = _encode_bindary_field(\n            doc_dec,\n            doc_enc,\n            doc_dec[field_key],')],
    '''
    spec = new(); spec["44"].update(data_enc="b", len_count="nibbles", left_pad="0")
    d = {"t": "0100", "44": "abc"}
    encode(d, spec)
    if d["44"] != "abc": bad(d)
    ''')
