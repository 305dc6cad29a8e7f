"""Second set of behaviour-preserving refactorings, larger ones (see refactors.py, which runs them).

An edit is (path, old, new), or (path, function of the file's text)."""
import re

E, D, T = "iso8583/encoder.py", "iso8583/decoder.py", "iso8583/tools.py"


def sub(old, new, count=1):
    def f(text):
        assert text.count(old) == count, (text.count(old), old[:80])
        return text.replace(old, new)
    return f


def cut(start, end, new):
    """Replace from the first line starting with `start` up to the one starting with `end`."""
    def f(text):
        i = text.index("\n" + start) + 1
        j = text.index("\n" + end, i) + 1 if end else len(text)
        return text[:i] + new + text[j:]
    return f


def chain(*fs):
    def f(text):
        for g in fs:
            text = g(text)
        return text
    return f


def locked(name, params, call, result):
    """result: how the lock is held"""
    held = {None: "    with _lock:\n        return _%s(%s)\n",
            "try": "    _lock.acquire()\n    try:\n        return _%s(%s)\n    finally:\n        _lock.release()\n",
            "ctx": "    with _held():\n        return _%s(%s)\n"}[result]
    helper = ("\n\n@contextlib.contextmanager\ndef _held():  # type: ignore\n    _lock.acquire()\n    try:\n"
              "        yield\n    finally:\n        _lock.release()\n\n" if result == "ctx" else "")

    def f(text):
        if helper:
            text = text.replace("import binascii\n", "import binascii\nimport contextlib\n", 1)
        text = text.replace("import binascii\n", "import binascii\nimport threading\n", 1)
        i = text.index("\n#\n# Private interface")
        head, tail = text[:i], text[i:]
        m = re.search(r"\ndef %s\(.*?\n    \"\"\"\n" % name, head, re.S)
        public = m.group(0)
        body = head[m.end():]
        return (head[:m.end()] + "\n" + held % (name, call) + "\n" + helper
                + "\ndef _%s(%s):\n" % (name, params) + body.lstrip("\n") + "\n_lock = threading.RLock()\n" + tail)
    return f


VARIANTS = {}

VARIANTS["both-locked"] = (
    (E, locked("encode", "doc_dec: DecodedDict, spec: SpecDict", "doc_dec, spec", None)),
    (D, locked("decode", "s: Union[bytes, bytearray], spec: SpecDict", "s, spec", None)))

for how in ("try", "ctx"):
    VARIANTS["both-locked-" + how] = (
        (E, locked("encode", "doc_dec: DecodedDict, spec: SpecDict", "doc_dec, spec", how)),
        (D, locked("decode", "s: Union[bytes, bytearray], spec: SpecDict", "s, spec", how)))

VARIANTS["enc-contextmanager"] = ((E, chain(
    sub("import binascii\n", "import binascii\nimport contextlib\n"),
    cut("def _encode_text_field(", None, '''@contextlib.contextmanager
def _converting(doc_dec, doc_enc, field_key):  # type: ignore
    try:
        yield
    except LookupError:
        raise EncodeError(
            "Failed to encode field, unknown encoding specified",
            doc_dec,
            doc_enc,
            field_key,
        ) from None
    except Exception:
        raise EncodeError(
            "Failed to encode field, invalid data",
            doc_dec,
            doc_enc,
            field_key,
        ) from None


def _encode_text_field(
    doc_dec: DecodedDict,
    doc_enc: EncodedDict,
    field_data: str,
    field_key: str,
    field_spec: _FieldSpecDict,
    len_count: str,
) -> Tuple[bytes, int]:
    with _converting(doc_dec, doc_enc, field_key):
        encoded_data = field_data.encode(field_spec["data_enc"])
    return encoded_data, len(encoded_data) * (2 if len_count == "nibbles" else 1)
'''))),)

VARIANTS["len-lru"] = (
    (E, chain(
        sub("import binascii\n", "import binascii\nimport functools\n"),
        sub('''        bcd_field_len = "{:0{len_type}d}".format(enc_field_len, len_type=len_type * 2)
''', '''        bcd_field_len = _digits(enc_field_len, len_type * 2)
'''),
        sub('''                "{:0{len_type}d}".format(enc_field_len, len_type=len_type),
''', '''                _digits(enc_field_len, len_type),
'''),
        sub('''def _encode_bindary_field(
''', '''@functools.lru_cache(maxsize=1024)
def _digits(number: int, width: int) -> str:
    return "{:0{width}d}".format(number, width=width)


def _encode_bindary_field(
'''))),
    (D, chain(
        sub("import binascii\n", "import binascii\nimport functools\n"),
        sub('''                enc_field_len = int(s[idx : idx + len_type].hex(), 10)
''', '''                enc_field_len = _bcd(bytes(s[idx : idx + len_type]))
'''),
        sub('''def _remove_pad_field(
''', '''@functools.lru_cache(maxsize=1024)
def _bcd(raw: bytes) -> int:
    return int(raw.hex(), 10)


def _remove_pad_field(
'''))))

VARIANTS["lazy-import"] = (
    (E, chain(sub("import binascii\nimport re\n", "import re\n"),
              sub('''    data_to_encode = field_data
    try:
''', '''    import binascii

    data_to_encode = field_data
    try:
'''),
              sub('''        doc_enc[field_key]["len"] = binascii.a2b_hex(bcd_field_len)
''', '''        import binascii

        doc_enc[field_key]["len"] = binascii.a2b_hex(bcd_field_len)
'''))),
    (D, chain(sub("import binascii\n", ""),
              sub('''        try:
            bitmap = binascii.a2b_hex(''', '''        from binascii import a2b_hex

        try:
            bitmap = a2b_hex('''))))

VARIANTS["enc-join-generator"] = ((E, cut("    for field_key in [str(i) for i in sorted(fields)]:", "#\n# Private", '''    s += b"".join(_encode_fields(doc_dec, doc_enc, spec, fields))

    return s, doc_enc


def _encode_fields(doc_dec, doc_enc, spec, fields):  # type: ignore
    for field_key in map(str, sorted(fields)):
        try:
            field_spec = spec[field_key]
        except KeyError:
            raise EncodeError(
                "Field is not defined in specification",
                doc_dec,
                doc_enc,
                field_key,
            ) from None
        yield _encode_field(doc_dec, doc_enc, field_key, field_spec)


''')),)

VARIANTS["pp-fstrings"] = ((T, chain(
    sub('''    stream.write("{index:3s}".format(index=str(field_key)))
''', '''    stream.write(f"{field_key!s:3s}")
'''),
    sub('''            " {desc: <{desc_width}}".format(
                desc=spec[field_key]["desc"][:desc_width],
                desc_width=desc_width,
            )
''', '''            " %-*s" % (desc_width, spec[field_key]["desc"][:desc_width])
'''),
    sub('''            stream.write("{} ".format(repr(field_length)))
            indent += len(repr(field_length)) + 1
''', '''            length_repr = repr(field_length) + " "
            stream.write(length_repr)
            indent += len(length_repr)
'''),
    sub('''    stream.write("{}\\n".format(repr(obj)))
''', '''    stream.write(rep + "\\n")
'''))),)

VARIANTS["dec-bitmap-from-bytes"] = ((D, cut("    fields.update(\n", "    return idx + expected", '''    bits = int.from_bytes(bitmap, "big")
    number = field_offset + 64
    while bits:
        if bits & 1:
            fields.add(number)
        bits >>= 1
        number -= 1

''')),)

VARIANTS["dec-bit-table"] = ((D, chain(
    cut("    fields.update(\n", "    return idx + expected", '''    for byte_idx, byte in enumerate(bitmap):
        base = field_offset + byte_idx * 8
        fields.update(base + bit for bit in _BITS[byte])

'''),
    sub("_FieldSpecDict = Mapping[str, Any]\n", '''_FieldSpecDict = Mapping[str, Any]

_BITS = tuple(
    tuple(bit for bit in range(1, 9) if byte & (0x80 >> (bit - 1))) for byte in range(256)
)
'''))),)

VARIANTS["dec-match"] = ((D, chain(
    sub('''    if field_spec["data_enc"] == "b":
        expected_field_len = 8
    else:
        expected_field_len = 16
''', '''    match field_spec["data_enc"]:
        case "b":
            expected_field_len = 8
        case _:
            expected_field_len = 16
'''),
    sub('''    if spec["t"]["data_enc"] == "b":
        expected_field_len = 2
    else:
        expected_field_len = 4
''', '''    expected_field_len = {True: 2, False: 4}[spec["t"]["data_enc"] == "b"]
'''),
    sub('''    if len_count == "nibbles":
        if enc_field_len & 1:
            byte_field_len = (enc_field_len + 1) // 2
        else:
            byte_field_len = enc_field_len // 2
    else:
        byte_field_len = enc_field_len
''', '''    byte_field_len = -(-enc_field_len // 2) if len_count == "nibbles" else enc_field_len
'''))),)

VARIANTS["errors-base"] = tuple((p, chain(
    sub("class %s(ValueError):" % n, '''class _Iso8583Error(ValueError):
    def __reduce__(self):  # type: ignore
        return self.__class__, tuple(getattr(self, name) for name in self._reduced)


class %s(_Iso8583Error):''' % n),
    lambda t: t,
    sub('    """\n\n    def __init__(', '    """\n\n    _reduced: Any = %r\n\n    def __init__(' % (names,)),
    cut("    def __reduce__(\n        self,\n", "def %s(" % f, "\n"),
    )) for p, n, f, names in (
        (E, "EncodeError", "encode", ("msg", "doc_dec", "doc_enc", "field")),
        (D, "DecodeError", "decode", ("msg", "s", "doc_dec", "doc_enc", "pos", "field"))))

ENC_CLASS = '''_FieldSpecDict = Mapping[str, Any]

_FIELD_KEY = re.compile("0|[1-9][0-9]{0,8}")


class _Encoder:
    """One message being encoded."""

    __slots__ = ("doc_dec", "doc_enc", "spec", "parts")

    def __init__(self, doc_dec: Any, spec: Any) -> None:
        self.doc_dec = doc_dec
        self.doc_enc: EncodedDict = {}
        self.spec = spec
        self.parts: Any = []

    def fail(self, msg: str, field: str) -> EncodeError:
        return EncodeError(msg, self.doc_dec, self.doc_enc, field)

    def message(self) -> Tuple[bytearray, EncodedDict]:
        doc = self.doc_dec
        doc.pop("1", None)
        doc.pop("65", None)
        if self.spec["h"]["max_len"] > 0:
            if "h" not in doc:
                raise self.fail(
                    "Field data is required according to specifications", "h"
                )
            self.field("h", self.spec["h"])
        self.type()
        numbers = self.numbers()
        groups = [
            {n for n in numbers if low < n <= low + 64 and n not in (1, 65)}
            for low in (0, 64, 128)
        ]
        if groups[2]:
            groups[1].add(65)
        if groups[1]:
            groups[0].add(1)
        self.bitmap("p", groups[0], 0, self.spec["p"])
        if groups[1]:
            if "1" not in self.spec.keys():
                raise self.fail("Field is not defined in specification", "1")
            self.bitmap("1", groups[1], 64, self.spec["1"])
        if groups[2]:
            self.bitmap("1", groups[2], 128, self.spec["1"])
        for key in [str(n) for n in sorted(set().union(*groups) - {1, 65})]:
            try:
                field_spec = self.spec[key]
            except KeyError:
                raise self.fail(
                    "Field is not defined in specification", key
                ) from None
            self.field(key, field_spec)
        return bytearray(b"".join(self.parts)), self.doc_enc

    def numbers(self) -> Any:
        odd = [k for k in self.doc_dec if not isinstance(k, str)]
        if odd:
            raise self.fail(f"Dictionary contains invalid fields {odd}", "p")
        keys = [k for k in self.doc_dec if k.isnumeric()]
        odd = [k for k in keys if not _FIELD_KEY.fullmatch(k)]
        if odd:
            raise self.fail(f"Dictionary contains invalid fields {odd}", "p")
        numbers = {int(k) for k in keys}
        outside = sorted(n for n in numbers if not 1 <= n <= 192)
        if outside:
            raise self.fail(
                f"Dictionary contains fields outside of 1-192 range {outside}", "p"
            )
        return numbers

    def type(self) -> None:
        if "t" not in self.doc_dec:
            raise self.fail("Field data is required", "t")
        spec = self.spec["t"]
        self.doc_enc["t"] = {"len": b"", "data": b""}
        binary = spec["data_enc"] == "b"
        data = self.doc_enc["t"]["data"] = self.data("t", spec, "bytes")[0]
        if len(data) != (2 if binary else 4):
            raise self.fail(
                f"Field data is {len(data)} bytes, expecting {2 if binary else 4}", "t"
            )
        self.parts.append(data)

    def bitmap(self, key: str, numbers: Any, offset: int, spec: Any) -> None:
        bits = 0
        for number in numbers:
            bits |= 1 << (64 - (number - offset))
        raw = bits.to_bytes(8, "big")
        text = "%016X" % bits
        if offset == 128:
            self.doc_dec[key] += text
        else:
            self.doc_dec[key] = text
            self.doc_enc[key] = {"len": b"", "data": b""}
        if spec["data_enc"] != "b":
            raw = self.text(text, key, spec)
        self.doc_enc[key]["data"] += raw
        self.parts.append(raw)

    def text(self, text: Any, key: str, spec: Any) -> bytes:
        try:
            return text.encode(spec["data_enc"])
        except LookupError:
            raise self.fail(
                "Failed to encode field, unknown encoding specified", key
            ) from None
        except Exception:
            raise self.fail("Failed to encode field, invalid data", key) from None

    def data(self, key: str, spec: Any, units: str) -> Tuple[bytes, int]:
        value = self.doc_dec[key]
        if spec["data_enc"] == "b":
            return self.binary(value, key, spec, units)
        raw = self.text(value, key, spec)
        return raw, len(raw) * (2 if units == "nibbles" else 1)

    def binary(self, value: Any, key: str, spec: Any, units: str) -> Tuple[bytes, int]:
        padded = value
        try:
            if units == "nibbles" and len(value) & 1:
                left = spec.get("left_pad", "")[:1]
                right = "" if left else spec.get("right_pad", "")[:1]
                padded = left + value + right
            raw = binascii.a2b_hex(padded)
        except Exception:
            if not isinstance(value, str):
                msg = "invalid data"
            elif len(padded) & 1:
                msg = (
                    "odd-length nibble data, specify pad"
                    if units == "nibbles"
                    else "odd-length hex data"
                )
            else:
                msg = "non-hex data"
            raise self.fail("Failed to encode field, " + msg, key) from None
        return raw, len(value) if units == "nibbles" else len(raw)

    def field(self, key: str, spec: Any) -> None:
        entry = self.doc_enc[key] = {"len": b"", "data": b""}
        units = spec.get("len_count", "bytes")
        entry["data"], length = self.data(key, spec, units)
        if spec["len_type"] == 0:
            if length != spec["max_len"]:
                raise self.fail(
                    f"Field data is {length} {units}, expecting {spec['max_len']}", key
                )
        else:
            if length > spec["max_len"]:
                raise self.fail(
                    f"Field data is {length} {units}, larger than maximum {spec['max_len']}",
                    key,
                )
            self.length(key, spec, length)
        self.parts.append(entry["len"] + entry["data"])

    def length(self, key: str, spec: Any, length: int) -> None:
        width = spec["len_type"]
        too_big = "Failed to encode field length, field length does not fit into configured field size"
        enc = spec["len_enc"]
        if enc == "b":
            if length >> (8 * width):
                raise self.fail(too_big, key)
            raw = length.to_bytes(width, "big")
        elif enc == "bcd":
            text = str(length).zfill(2 * width)
            if len(text) > 2 * width:
                raise self.fail(too_big, key)
            raw = bytes.fromhex(text)
        else:
            try:
                raw = str(length).zfill(width).encode(enc)
            except LookupError:
                raise self.fail(
                    "Failed to encode field length, unknown encoding specified", key
                ) from None
            except Exception as e:
                raise self.fail(f"Failed to encode field length, {e}", key) from None
            self.doc_enc[key]["len"] = raw
            if len(raw) > width:
                raise self.fail(too_big, key)
        self.doc_enc[key]["len"] = raw
'''

VARIANTS["enc-class"] = ((E, chain(
    cut("    s = bytearray()\n", "#\n# Private", '''    return _Encoder(doc_dec, spec).message()


'''),
    cut("_FieldSpecDict = ", None, ENC_CLASS))),)

DEC_CLASS = '''class _Cursor:
    """A position in the message being decoded."""

    def __init__(self, s: Any, spec: Any) -> None:
        self.s = s
        self.spec = spec
        self.pos = 0
        self.doc_dec: DecodedDict = {}
        self.doc_enc: EncodedDict = {}

    def fail(self, msg: str, field: str) -> DecodeError:
        return DecodeError(msg, self.s, self.doc_dec, self.doc_enc, self.pos, field)

    def peek(self, n: int) -> bytes:
        return bytes(self.s[self.pos : self.pos + n])

    def text(self, raw: bytes, field: str, encoding: Any) -> str:
        try:
            return raw.decode(encoding)
        except LookupError:
            raise self.fail(
                "Failed to decode field, unknown encoding specified", field
            ) from None
        except Exception:
            raise self.fail("Failed to decode field, invalid data", field) from None

    def spec_of(self, field: str) -> Any:
        try:
            return self.spec[field]
        except KeyError:
            raise self.fail("Field is not defined in specification", field) from None

    def message(self) -> Tuple[DecodedDict, EncodedDict]:
        if self.spec["h"]["max_len"] > 0:
            self.field("h", self.spec["h"])
        self.type()
        last = "p"
        wanted = self.bitmap("p", 0, self.spec["p"], False)
        if 1 in wanted:
            last = "1"
            wanted.remove(1)
            wanted |= self.bitmap("1", 64, self.spec_of("1"), False)
        if 65 in wanted:
            wanted.remove(65)
            wanted |= self.bitmap("1", 128, self.spec["1"], True)
        for number in sorted(wanted):
            last = str(number)
            self.field(last, self.spec_of(last))
        if self.pos < len(self.s):
            raise self.fail("Extra data after last field", last)
        return self.doc_dec, self.doc_enc

    def type(self) -> None:
        enc = self.spec["t"]["data_enc"]
        need = 2 if enc == "b" else 4
        raw = self.peek(need)
        self.doc_dec["t"] = ""
        self.doc_enc["t"] = {"len": b"", "data": raw}
        if len(raw) < need:
            raise self.fail(f"Field data is {len(raw)} bytes, expecting {need}", "t")
        self.doc_dec["t"] = (
            raw.hex().upper() if enc == "b" else self.text(raw, "t", enc)
        )
        self.pos += need

    def bitmap(self, key: str, offset: int, spec: Any, more: bool) -> Set[int]:
        enc = spec["data_enc"]
        need = 8 if enc == "b" else 16
        raw = self.peek(need)
        if not more:
            self.doc_dec[key] = ""
            self.doc_enc[key] = {"len": b"", "data": b""}
        self.doc_enc[key]["data"] += raw
        if len(raw) < need:
            raise self.fail(
                f"Field data is {len(self.doc_enc[key]['data'])} bytes, expecting {need * (2 if more else 1)}",
                key,
            )
        if enc == "b":
            text = raw.hex().upper()
        else:
            text = self.text(raw, key, enc)
        self.doc_dec[key] += text
        try:
            bits = binascii.a2b_hex(text)
        except Exception:
            raise self.fail("Failed to decode field, non-hex data", key) from None
        self.pos += need
        return {
            offset + 1 + n
            for n, bit in enumerate("".join(f"{byte:08b}" for byte in bits))
            if bit == "1"
        }

    def length(self, key: str, spec: Any) -> int:
        width = spec["len_type"]
        raw = self.peek(width)
        self.doc_dec[key] = ""
        self.doc_enc[key] = {"len": raw, "data": b""}
        if len(raw) < width:
            raise self.fail(
                f"Field length is {len(raw)} bytes wide, expecting {width}", key
            )
        if width == 0:
            return int(spec["max_len"])
        enc = spec["len_enc"]
        if enc == "b":
            return int.from_bytes(raw, "big")
        if enc == "bcd":
            digits = raw.hex()
            if not digits.isdigit():
                raise self.fail(
                    "Failed to decode field length, invalid BCD data", key
                )
            return int(digits)
        try:
            digits = raw.decode(enc)
        except LookupError:
            raise self.fail(
                "Failed to decode field length, unknown encoding specified", key
            ) from None
        except Exception:
            raise self.fail(
                "Failed to decode field length, invalid data", key
            ) from None
        if not re.fullmatch("[0-9]+", digits):
            raise self.fail("Failed to decode field length, non-numeric data", key)
        return int(digits)

    def field(self, key: str, spec: Any) -> None:
        units = spec.get("len_count", "bytes")
        length = self.length(key, spec)
        if spec["len_type"] and length > spec["max_len"]:
            raise self.fail(
                f"Field data is {length} {units}, larger than maximum {spec['max_len']}",
                key,
            )
        self.pos += spec["len_type"]
        if not length:
            return
        half = units == "nibbles"
        need = (length + 1) // 2 if half else length
        raw = self.doc_enc[key]["data"] = self.peek(need)
        if len(raw) < need:
            raise self.fail(
                f"Field data is {len(raw) * (2 if half else 1)} {units}, expecting {length}",
                key,
            )
        odd = half and length % 2
        if spec["data_enc"] == "b":
            text = self.doc_dec[key] = raw.hex().upper()
            if odd:
                left = spec.get("left_pad", "")[:1].upper()
                right = spec.get("right_pad", "")[:1].upper()
                if left and text.startswith(left):
                    text = text[1:]
                elif right and not left and text.endswith(right):
                    text = text[:-1]
                else:
                    raise self.fail(
                        f"Field data is {len(text)} nibbles, expecting {length}", key
                    )
                self.doc_dec[key] = text
        elif odd:
            raise self.fail(f"Field data is {need * 2} nibbles, expecting {length}", key)
        else:
            self.doc_dec[key] = self.text(raw, key, spec["data_enc"])
        self.pos += need
'''

VARIANTS["dec-class"] = ((D, chain(
    sub("import binascii\n", "import binascii\nimport re\n"),
    cut("    doc_dec: DecodedDict = {}\n", "#\n# Private", '''    return _Cursor(s, spec).message()


'''),
    cut("_FieldSpecDict = ", None, DEC_CLASS))),)

PP_NEW = '''def _pp_field(doc, spec, desc_width, stream, line_width, field_key):  # type: ignore
    lead = str(field_key).ljust(3)
    if desc_width > 0:
        lead += " " + spec[field_key]["desc"][:desc_width].ljust(desc_width)
    lead += ": "
    indent = 5 + (desc_width + 1 if desc_width > 0 else 0)
    value = doc[field_key]
    if isinstance(value, dict):
        length = value.get("len", b"")
        if length:
            lead += repr(length) + " "
            indent += len(repr(length)) + 1
        value = value.get("data", b"")
    whole = repr(value)
    lines = [whole]
    if len(whole) + indent > line_width and len(value) > 1:
        if type(value).__repr__ is str.__repr__:
            lines = _wrap_str_repr(value, line_width - indent)
        elif type(value).__repr__ is bytes.__repr__:
            lines = _wrap_bytes_repr(value, line_width - indent)
    stream.write(lead)
    stream.write(("\\n" + " " * indent).join(lines))
    stream.write("\\n")


def _wrap_str_repr(value, width):  # type: ignore
    step = width - 2 if width > 3 else 1
    return [repr(value[i : i + step]) for i in range(0, len(value), step)]


def _wrap_bytes_repr(value, width):  # type: ignore
    lines = []
    start = 0
    while start < len(value):
        stop = start + 1
        while stop < len(value) and len(repr(value[start : stop + 1])) <= width:
            stop += 1
        lines.append(repr(value[start:stop]))
        start = stop
    return lines
'''
VARIANTS["pp-rewrite"] = ((T, cut("def _pp_field(", None, PP_NEW)),)

VARIANTS["all-rewritten"] = VARIANTS["enc-class"] + VARIANTS["dec-class"] + VARIANTS["pp-rewrite"]
