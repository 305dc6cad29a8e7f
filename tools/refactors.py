"""Behaviour-preserving refactorings of /repo: every check has to stay quiet on each of them.

python3 tools/refactors.py [NAME...] [--checks C01,C02] [--runs N]
Each variant is written into a scratch copy under /tmp, tested, checked with DST_REPO, removed."""
import os
import shutil
import subprocess
import sys
import tempfile

import refactors2

E, D, T = "iso8583/encoder.py", "iso8583/decoder.py", "iso8583/tools.py"

VARIANTS = {}


def variant(name, *edits):
    VARIANTS[name] = edits


# --- tools.py -------------------------------------------------------------
variant("pp-batched-lines",
    (T, '''    indent = 5
    stream.write("{index:3s}".format(index=str(field_key)))
''', '''    indent = 5
    prefix = "{index:3s}".format(index=str(field_key))
'''),
    (T, '''        stream.write(
            " {desc: <{desc_width}}".format(
                desc=spec[field_key]["desc"][:desc_width],
                desc_width=desc_width,
            )
        )
''', '''        prefix += " {desc: <{desc_width}}".format(
            desc=spec[field_key]["desc"][:desc_width],
            desc_width=desc_width,
        )
'''),
    (T, '''    stream.write(": ")

''', '''    prefix += ": "

'''),
    (T, '''            stream.write("{} ".format(repr(field_length)))
''', '''            prefix += "{} ".format(repr(field_length))
'''),
    (T, '''        if p is not None:
            p(obj, stream, indent, line_width)
''', '''        if p is not None:
            stream.write(prefix)
            p(obj, stream, indent, line_width)
'''),
    (T, '''    stream.write("{}\\n".format(repr(obj)))
''', '''    stream.write("{}{}\\n".format(prefix, repr(obj)))
'''))

variant("pp-helper-order",
    (T, '''    if "h" in doc and spec["h"]["max_len"] > 0:
        _pp_field(doc, spec, desc_width, stream, line_width, "h")

    if "t" in doc:
        _pp_field(doc, spec, desc_width, stream, line_width, "t")

    if "p" in doc:
        _pp_field(doc, spec, desc_width, stream, line_width, "p")

    for field_key in sorted(
        [k for k in doc.keys() if isinstance(k, str) and k.isnumeric()], key=int
    ):
        _pp_field(doc, spec, desc_width, stream, line_width, field_key)
''', '''    for field_key in _ordered_keys(doc, spec):
        _pp_field(doc, spec, desc_width, stream, line_width, field_key)


def _ordered_keys(doc: Any, spec: SpecDict) -> Any:
    keys = []
    if "h" in doc and spec["h"]["max_len"] > 0:
        keys.append("h")
    keys.extend(key for key in ("t", "p") if key in doc)
    numeric = [k for k in doc if isinstance(k, str) and k.isnumeric()]
    numeric.sort(key=int)
    return keys + numeric
'''))

variant("pp-wrap-loops",
    (T, '''    delim = ""
    for rep in _wrap_str_repr(obj, width - indent):
        stream.write(delim)
        stream.write(rep)
        if not delim:
            delim = "\\n" + " " * indent


_dispatch[str''', '''    stream.write(("\\n" + " " * indent).join(_wrap_str_repr(obj, width - indent)))


_dispatch[str'''),
    (T, '''    delim = ""
    for rep in _wrap_bytes_repr(obj, width - indent):
        stream.write(delim)
        stream.write(rep)
        if not delim:
            delim = "\\n" + " " * indent
''', '''    first, *rest = _wrap_bytes_repr(obj, width - indent)
    stream.write(first)
    for rep in rest:
        stream.write("\\n" + " " * indent)
        stream.write(rep)
'''),
    (T, '''    for i in range(0, len(obj), width):
        yield repr(obj[i : i + width])
''', '''    i = 0
    while i < len(obj):
        yield repr(obj[i : i + width])
        i += width
'''))

variant("pp-one-write",
    (T, '''    desc_width = int(desc_width)
    line_width = int(line_width)

    if stream is None:
        stream = _sys.stdout
''', '''    desc_width = int(desc_width)
    line_width = int(line_width)

    out = _sys.stdout if stream is None else stream
    import io as _io
    stream = _io.StringIO()
'''),
    (T, '''        _pp_field(doc, spec, desc_width, stream, line_width, field_key)


def''', '''        _pp_field(doc, spec, desc_width, stream, line_width, field_key)

    text = stream.getvalue()
    if text:
        out.write(text)


def'''))

variant("pp-isinstance-dispatch",
    (T, '''        p = _dispatch.get(type(obj).__repr__, None)
        if p is not None:
            p(obj, stream, indent, line_width)
            stream.write("\\n")
            return
''', '''        if type(obj) is str or type(obj) is bytes:
            printer = _pprint_str if type(obj) is str else _pprint_bytes
            printer(obj, stream, indent, line_width)
            stream.write("\\n")
            return
'''))

# --- encoder.py -----------------------------------------------------------
variant("enc-parts-join",
    (E, '''    s = bytearray()
    doc_enc: EncodedDict = {}
''', '''    parts = []
    doc_enc: EncodedDict = {}
'''),
    (E, '''    s += _encode_header(doc_dec, doc_enc, spec)
    s += _encode_type(doc_dec, doc_enc, spec)
''', '''    parts.append(_encode_header(doc_dec, doc_enc, spec))
    parts.append(_encode_type(doc_dec, doc_enc, spec))
'''),
    (E, '''    s += _encode_bitmap(
        doc_dec,
        doc_enc,
        "p",
        spec["p"],
        0,
        False,
        fields.intersection(range(1, 65)),
    )
''', '''    parts.append(
        _encode_bitmap(
            doc_dec,
            doc_enc,
            "p",
            spec["p"],
            0,
            False,
            {field for field in fields if field <= 64},
        )
    )
'''),
    (E, '''        s += _encode_bitmap(
            doc_dec,
            doc_enc,
            "1",
            field_spec,
            64,
            False,
            secondary_fields,
        )
        fields.remove(1)
''', '''        parts.append(
            _encode_bitmap(
                doc_dec, doc_enc, "1", field_spec, 64, False, secondary_fields
            )
        )
        fields.discard(1)
'''),
    (E, '''        s += _encode_bitmap(
            doc_dec,
            doc_enc,
            "1",
            spec["1"],
            128,
            True,
            tertiary_fields,
        )
        fields.remove(65)
''', '''        indicator = 65
        parts.append(
            _encode_bitmap(
                doc_dec, doc_enc, "1", spec["1"], 128, True, tertiary_fields
            )
        )
        fields.discard(indicator)
'''),
    (E, '''        s += _encode_field(doc_dec, doc_enc, field_key, field_spec)

    return s, doc_enc
''', '''        parts.append(_encode_field(doc_dec, doc_enc, field_key, field_spec))

    return bytearray().join(parts), doc_enc
'''))

variant("enc-from-docenc",
    (E, '''        s += _encode_field(doc_dec, doc_enc, field_key, field_spec)

    return s, doc_enc
''', '''        _encode_field(doc_dec, doc_enc, field_key, field_spec)

    s = bytearray()
    for part in doc_enc.values():
        s.extend(part["len"])
        s.extend(part["data"])
    return s, doc_enc
'''))

variant("enc-bitmap-int",
    (E, '''    bitmap = bytearray(b"\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00")

    for field in fields:
        # Fields start at 1. Make them zero-bound for easier conversion.
        # Offset fields to fit into 0-7 byte.
        field -= 1 + field_offset

        # Place this particular field in a byte where it belongs.
        # E.g. field 8 belongs to byte 0, field 64 belongs to byte 7.
        byte = field // 8

        # Determine bit to enable. ISO8583 bitmaps are left-aligned.
        # E.g. fields 1, 9, 17, etc. enable bit 7 in bytes 0, 1, 2, etc.
        bit = 7 - (field - byte * 8)
        bitmap[byte] |= 1 << bit

    hex_bitmap = bitmap.hex().upper()
''', '''    bits = sum(1 << (64 + field_offset - field) for field in fields)
    bitmap = bits.to_bytes(8, "big")
    hex_bitmap = f"{bits:016X}"
'''))

variant("enc-length-helper",
    (E, '''    # Encode binary field length
    if field_spec["len_enc"] == "b":
        try:
            doc_enc[field_key]["len"] = (enc_field_len).to_bytes(
                len_type, "big", signed=False
            )
        except OverflowError:
            raise EncodeError(
                "Failed to encode field length, field length does not fit into configured field size",
                doc_dec,
                doc_enc,
                field_key,
            ) from None
''', '''    # Encode binary field length
    len_enc = field_spec["len_enc"]
    if len_enc == "b":
        if enc_field_len >= 256**len_type:
            raise EncodeError(
                "Failed to encode field length, field length does not fit into configured field size",
                doc_dec,
                doc_enc,
                field_key,
            ) from None
        doc_enc[field_key]["len"] = enc_field_len.to_bytes(len_type, "big")
'''),
    (E, '''    elif field_spec["len_enc"] == "bcd":
''', '''    elif len_enc == "bcd":
'''),
    (E, '''        bcd_field_len = "{:0{len_type}d}".format(enc_field_len, len_type=len_type * 2)
''', '''        bcd_field_len = str(enc_field_len).zfill(len_type * 2)
'''),
    (E, '''            doc_enc[field_key]["len"] = bytes(
                "{:0{len_type}d}".format(enc_field_len, len_type=len_type),
                field_spec["len_enc"],
            )
''', '''            doc_enc[field_key]["len"] = str(enc_field_len).rjust(len_type, "0").encode(len_enc)
'''))

variant("enc-local-part",
    (E, '''    # Encode field data
    doc_enc[field_key] = {"len": b"", "data": b""}

    # Optional field''', '''    # Encode field data
    part = {"len": b"", "data": b""}
    doc_enc[field_key] = part

    # Optional field'''),
    (E, '''        doc_enc[field_key]["data"], enc_field_len = _encode_bindary_field(
            doc_dec,
            doc_enc,
            doc_dec[field_key],
            field_key,
            field_spec,
            len_count,
        )
    # Text data
    else:
        doc_enc[field_key]["data"], enc_field_len = _encode_text_field(
            doc_dec,
            doc_enc,
            doc_dec[field_key],
            field_key,
            field_spec,
            len_count,
        )
''', '''        encoder = _encode_bindary_field
    # Text data
    else:
        encoder = _encode_text_field
    data, enc_field_len = encoder(
        doc_dec, doc_enc, doc_dec[field_key], field_key, field_spec, len_count
    )
    part["data"] = data
'''),
    (E, '''        doc_enc[field_key]["len"] = b""
        return doc_enc[field_key]["data"]
''', '''        return data
'''),
    (E, '''    return doc_enc[field_key]["len"] + doc_enc[field_key]["data"]


def _encode_bind''', '''    return b"".join((part["len"], data))


def _encode_bind'''))

variant("enc-fail-helper",
    (E, '''    try:
        encoded_data = field_data.encode(field_spec["data_enc"])
    except LookupError:
        raise EncodeError(
            "Failed to encode field, unknown encoding specified",
            doc_dec,
            doc_enc,
            field_key,
        ) from None
    except Exception:
        raise EncodeError(
            "Failed to encode field, invalid data",
            doc_dec,
            doc_enc,
            field_key,
        ) from None
''', '''    try:
        encoded_data = field_data.encode(field_spec["data_enc"])
    except Exception as e:
        reason = (
            "unknown encoding specified"
            if isinstance(e, LookupError)
            else "invalid data"
        )
        raise EncodeError(
            "Failed to encode field, " + reason, doc_dec, doc_enc, field_key
        ) from None
'''))

variant("enc-pop-order",
    (E, '''    # Secondary bitmaps will be calculated as needed
    doc_dec.pop("1", None)
    # Extended bitmap indicator must not be an actual field
    doc_dec.pop("65", None)
''', '''    # Bitmaps will be calculated as needed; the indicator is no actual field
    for stale in ("65", "1"):
        if stale in doc_dec:
            del doc_dec[stale]
'''),
    (E, '''    tertiary_fields = fields.intersection(range(129, 193))
    if tertiary_fields:
        fields.add(65)

    # Add secondary bitmap if any 65-128 fields are present
    secondary_fields = fields.intersection(range(65, 129))
    if secondary_fields:
        fields.add(1)
''', '''    tertiary_fields = {f for f in fields if 129 <= f}
    secondary_fields = {f for f in fields if 65 <= f <= 128}
    if tertiary_fields:
        secondary_fields.add(65)
        fields.add(65)
    if secondary_fields:
        fields.add(1)
'''))

variant("enc-type-lookup",
    (E, '''    # Message type is a set length in ISO8583
    if spec["t"]["data_enc"] == "b":
        expected_field_len = 2
    else:
        expected_field_len = 4

    doc_enc["t"] = {"len": b"", "data": b""}

    if spec["t"]["data_enc"] == "b":
        doc_enc["t"]["data"], enc_field_len = _encode_bindary_field(
            doc_dec,
            doc_enc,
            doc_dec["t"],
            "t",
            spec["t"],
            "bytes",
        )
    else:
        doc_enc["t"]["data"], enc_field_len = _encode_text_field(
            doc_dec,
            doc_enc,
            doc_dec["t"],
            "t",
            spec["t"],
            "bytes",
        )
''', '''    type_spec = spec["t"]
    binary = type_spec["data_enc"] == "b"
    # Message type is a set length in ISO8583
    expected_field_len = 2 if binary else 4
    field_data = doc_dec["t"]

    doc_enc["t"] = {"len": b"", "data": b""}

    encode_data = _encode_bindary_field if binary else _encode_text_field
    doc_enc["t"]["data"], enc_field_len = encode_data(
        doc_dec, doc_enc, field_data, "t", type_spec, "bytes"
    )
'''))

variant("enc-fromhex",
    (E, '''        encoded_data = binascii.a2b_hex(data_to_encode)
''', '''        if any(c not in "0123456789abcdefABCDEF" for c in data_to_encode):
            raise ValueError("not hexadecimal")
        encoded_data = bytes.fromhex(data_to_encode)
'''))

# --- decoder.py -----------------------------------------------------------
variant("dec-fail-closure",
    (D, '''    if len(s[idx : idx + len_type]) != len_type:
        raise DecodeError(
            f"Field length is {len(s[idx:idx + len_type])} bytes wide, expecting {len_type}",
            s,
            doc_dec,
            doc_enc,
            idx,
            field_key,
        )
''', '''    def fail(msg: str) -> DecodeError:
        return DecodeError(msg, s, doc_dec, doc_enc, idx, field_key)

    enc_len = doc_enc[field_key]["len"]
    if len(enc_len) != len_type:
        raise fail(f"Field length is {len(enc_len)} bytes wide, expecting {len_type}")
'''),
    (D, '''                enc_field_len = int.from_bytes(
                    s[idx : idx + len_type], "big", signed=False
                )
''', '''                enc_field_len = int.from_bytes(enc_len, "big")
'''),
    (D, '''                enc_field_len = int(s[idx : idx + len_type].hex(), 10)
''', '''                enc_field_len = int(enc_len.hex())
'''),
    (D, '''                decoded_length = s[idx : idx + len_type].decode(field_spec["len_enc"])
''', '''                decoded_length = str(enc_len, field_spec["len_enc"])
'''))

variant("dec-bitmap-loop",
    (D, '''    fields.update(
        [
            field_offset + byte_idx * 8 + bit
            for bit in range(1, 9)
            for byte_idx, byte in enumerate(bitmap)
            if byte >> (8 - bit) & 1
        ]
    )
''', '''    number = int.from_bytes(bitmap, "big")
    for bit in range(64):
        if number & (1 << (63 - bit)):
            fields.add(field_offset + bit + 1)
'''))

variant("dec-copy-input",
    (D, '''    doc_dec: DecodedDict = {}
    doc_enc: EncodedDict = {}
    fields: Set[int] = set()
    idx = 0
''', '''    doc_enc: EncodedDict = {}
    doc_dec: DecodedDict = {}
    idx = 0
    fields: Set[int] = set()
'''),
    (D, '''    field = "p"
    idx = _decode_bitmap(
        s,
        doc_dec,
        doc_enc,
        idx,
        field,
        spec[field],
        0,
        False,
        fields,
    )

    if 1 in fields:
        field = "1"
        try:
            field_spec = spec[field]
        except KeyError:
            raise DecodeError(
                "Field is not defined in specification",
                s,
                doc_dec,
                doc_enc,
                idx,
                field,
            ) from None
        idx = _decode_bitmap(
            s,
            doc_dec,
            doc_enc,
            idx,
            field,
            field_spec,
            64,
            False,
            fields,
        )
        fields.remove(1)

    if 65 in fields:
        # Secondary bitmap is extended to contain tertiary fields
        idx = _decode_bitmap(
            s,
            doc_dec,
            doc_enc,
            idx,
            field,
            spec[field],
            128,
            True,
            fields,
        )
        fields.remove(65)
''', '''    for indicator, field, offset in ((None, "p", 0), (1, "1", 64), (65, "1", 128)):
        if indicator is not None:
            if indicator not in fields:
                continue
        try:
            field_spec = spec[field]
        except KeyError:
            raise DecodeError(
                "Field is not defined in specification",
                s,
                doc_dec,
                doc_enc,
                idx,
                field,
            ) from None
        idx = _decode_bitmap(
            s,
            doc_dec,
            doc_enc,
            idx,
            field,
            field_spec,
            offset,
            offset == 128,
            fields,
        )
        if indicator is not None:
            fields.discard(indicator)
    field = "1" if "1" in doc_dec else "p"
'''))

variant("dec-ceil",
    (D, '''    if len_count == "nibbles":
        if enc_field_len & 1:
            byte_field_len = (enc_field_len + 1) // 2
        else:
            byte_field_len = enc_field_len // 2
    else:
        byte_field_len = enc_field_len

    # Parse field data
    doc_enc[field_key]["data"] = bytes(s[idx : idx + byte_field_len])
    if len(doc_enc[field_key]["data"]) != byte_field_len:
        if len_count == "nibbles":
            actual_field_len = len(doc_enc[field_key]["data"]) * 2
        else:
            actual_field_len = len(doc_enc[field_key]["data"])
''', '''    in_nibbles = len_count == "nibbles"
    byte_field_len = -(-enc_field_len // 2) if in_nibbles else enc_field_len

    # Parse field data
    data = bytes(s[idx : idx + byte_field_len])
    doc_enc[field_key]["data"] = data
    if len(data) != byte_field_len:
        actual_field_len = len(data) * (2 if in_nibbles else 1)
'''),
    (D, '''        doc_dec[field_key] = doc_enc[field_key]["data"].hex().upper()
''', '''        doc_dec[field_key] = binascii.b2a_hex(data).decode("ascii").upper()
'''))

variant("dec-memoview",
    (D, '''    encoded_field_data = s[idx : idx + expected_field_len]
    doc_dec["t"] = ""
    doc_enc["t"] = {"len": b"", "data": bytes(encoded_field_data)}
''', '''    with memoryview(s) as view:
        encoded_field_data = bytes(view[idx : idx + expected_field_len])
    doc_enc["t"] = {"len": b"", "data": encoded_field_data}
    doc_dec["t"] = ""
'''),
    (D, '''    return idx + expected_field_len


def _decode_bitmap(''', '''    idx += expected_field_len
    return idx


def _decode_bitmap('''))

variant("dec-codecs",
    (D, '''        return data.decode(field_spec["data_enc"])
''', '''        text = str(bytes(data), field_spec["data_enc"])
        return text
'''))

variant("dec-memo-tail",
    (D, '''    if idx != len(s):
        raise DecodeError(
            "Extra data after last field", s, doc_dec, doc_enc, idx, field
        )

    return doc_dec, doc_enc
''', '''    if idx == len(s):
        return doc_dec, doc_enc

    raise DecodeError("Extra data after last field", s, doc_dec, doc_enc, idx, field)
'''))

variant("dec-lru-bitmap",
    (D, '''from typing import''', '''from functools import lru_cache
from typing import'''),
    (D, '''    fields.update(
        [
            field_offset + byte_idx * 8 + bit
            for bit in range(1, 9)
            for byte_idx, byte in enumerate(bitmap)
            if byte >> (8 - bit) & 1
        ]
    )
''', '''    fields.update(_fields_of(bytes(bitmap), field_offset))
'''),
    (D, '''def _decode_field(
    s: Union''', '''@lru_cache(maxsize=256)
def _fields_of(bitmap: bytes, offset: int) -> Any:
    return frozenset(
        offset + i * 8 + bit
        for i, byte in enumerate(bitmap)
        for bit in range(1, 9)
        if byte & (0x80 >> (bit - 1))
    )


def _decode_field(
    s: Union'''))

variant("err-super",
    (D, '''        errmsg = f"{msg}: field {field} pos {pos}"
        ValueError.__init__(self, errmsg)
        self.msg = msg
''', '''        super().__init__(f"{msg}: field {field} pos {pos}")
        self.msg = msg
'''),
    (E, '''        errmsg = f"{msg}: field {field}"
        ValueError.__init__(self, errmsg)
        self.msg = msg
''', '''        super().__init__(f"{msg}: field {field}")
        self.msg = msg
'''))

variant("comments-noops",
    (E, '''    s = bytearray()
    doc_enc: EncodedDict = {}
''', '''    _unused = 0
    s = bytearray()
    doc_enc: EncodedDict = {}
'''),
    (D, '''    doc_dec: DecodedDict = {}
    doc_enc: EncodedDict = {}
    fields''', '''    _unused = None
    doc_dec: DecodedDict = {}
    doc_enc: EncodedDict = {}
    fields'''),
    (T, '''    indent = 5
''', '''    pass
    indent = 5
'''))

ALL = ["C%02d" % i for i in range(1, 22)]


VARIANTS.update(refactors2.VARIANTS)


def main():
    argv = sys.argv[1:]
    checks, extra = ALL, []
    names = []
    while argv:
        a = argv.pop(0)
        if a == "--checks":
            checks = argv.pop(0).split(",")
        elif a == "--runs":
            extra = ["--runs", argv.pop(0)]
        else:
            names.append(a)
    bad = 0
    for name in names or VARIANTS:
        tmp = tempfile.mkdtemp(prefix="refactor-")
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        try:
            for path, old, *new in VARIANTS[name]:
                full = os.path.join(repo, path)
                text = open(full).read()
                if callable(old):
                    open(full, "w").write(old(text))
                    continue
                new = new[0]
                if text.count(old) != 1:
                    sys.exit("%s: %d matches for %r" % (name, text.count(old), old[:80]))
                open(full, "w").write(text.replace(old, new))
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"],
                               cwd=repo, capture_output=True, text=True)
            print(name, "tests", r.stdout.strip().splitlines()[-1], flush=True)
            if r.returncode:
                print(r.stdout[-3000:])
                bad += 1
                continue
            env = dict(os.environ, DST_REPO=repo, DST_OUT=tmp)
            for c in checks:
                r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "check.py"), c, "--tier", "quick"] + extra,
                                   env=env, capture_output=True, text=True)
                if r.returncode:
                    bad += 1
                    print("  ALARM", name, c, r.returncode, r.stdout[-1500:], r.stderr[-800:], flush=True)
        finally:
            shutil.rmtree(tmp)
    print("refactorings that raised an alarm or failed:", bad)
    return bad != 0


if __name__ == "__main__":
    sys.exit(main())
