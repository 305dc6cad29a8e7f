"""Independent executable reading of the documented format: the reference model.

Written from the documentation (docs/, iso8583/specs.py docstring), organised differently from the
library: a message is a list of elements (name, wire length part, wire data part, value).
Text conversion uses Python's codecs, as the documentation says.
"""
import re

HEX = re.compile(r"[0-9A-Fa-f]*\Z")
KEY = re.compile(r"(0|[1-9][0-9]*)\Z")
DIGITS = re.compile(r"[0-9]+\Z")


class Reject(Exception):
    """field: the element at fault; pos: where (decode only); dec/enc: elements before it."""

    def __init__(self, field, pos=None, why=""):
        Exception.__init__(self, field, pos, why)
        self.field = field
        self.pos = pos
        self.why = why
        self.dec = {}
        self.enc = {}
        self.tail = b""      # decode: raw bytes the failing element may show


def _codec_failed(e):
    return Exception  # any codec failure is a refusal


# ---------------------------------------------------------------- encode
def _text(value, enc, field, why):
    if not isinstance(value, str):
        raise Reject(field, why="not text")
    try:
        out = value.encode(enc)
    except Exception:
        raise Reject(field, why=why) from None
    return out


def _binary(value, field):
    if not isinstance(value, str):
        raise Reject(field, why="not text")
    if not HEX.match(value) or len(value) % 2:
        raise Reject(field, why="not hex")
    return bytes.fromhex(value)


def _length(n, fs, field):
    """Length indicator announcing n units."""
    width = fs["len_type"]
    if fs["len_enc"] == "b":
        if n >= 256 ** width:
            raise Reject(field, why="length too wide")
        out = []
        for _ in range(width):
            out.append(n % 256)
            n //= 256
        return bytes(reversed(out))
    digits = str(n)
    if fs["len_enc"] == "bcd":
        digits = digits.rjust(2 * width, "0")
        if len(digits) > 2 * width:
            raise Reject(field, why="length too wide")
        return bytes(16 * int(digits[i]) + int(digits[i + 1]) for i in range(0, len(digits), 2))
    out = _text(digits.rjust(width, "0"), fs["len_enc"], field, "length encoding")
    if len(out) > width:
        raise Reject(field, why="length too wide")
    return out


def encode_element(value, fs, field):
    """-> (length part, data part)"""
    nibbles = fs.get("len_count", "bytes") == "nibbles"
    if fs["data_enc"] == "b":
        if not isinstance(value, str):
            raise Reject(field, why="not text")
        padded = value
        if nibbles and len(value) % 2:
            left, right = fs.get("left_pad", ""), fs.get("right_pad", "")
            if left:
                padded = left[0] + value
            elif right:
                padded = value + right[0]
        data = _binary(padded, field)
        n = len(value) if nibbles else len(data)
    else:
        data = _text(value, fs["data_enc"], field, "data encoding")
        n = len(data) * (2 if nibbles else 1)
    if fs["len_type"] == 0:
        if n != fs["max_len"]:
            raise Reject(field, why="fixed length")
        return b"", data
    if n > fs["max_len"]:
        raise Reject(field, why="too long")
    return _length(n, fs, field), data


def encode(doc, spec):
    """-> (wire, {element: (length part, data part)}, {'p': hex, '1': hex or absent})"""
    enc = {}
    try:
        return _encode(doc, spec, enc)
    except Reject as r:
        r.enc = enc
        raise


def _encode(doc, spec, enc):
    doc = {k: v for k, v in doc.items() if k not in ("1", "65")}
    if spec["h"]["max_len"] > 0:
        if "h" not in doc:
            raise Reject("h", why="missing")
        enc["h"] = encode_element(doc["h"], spec["h"], "h")
    if "t" not in doc:
        raise Reject("t", why="missing")
    if spec["t"]["data_enc"] == "b":
        data = _binary(doc["t"], "t")
        if len(data) != 2:
            raise Reject("t", why="type length")
    else:
        data = _text(doc["t"], spec["t"]["data_enc"], "t", "data encoding")
        if len(data) != 4:
            raise Reject("t", why="type length")
    enc["t"] = (b"", data)
    for k in doc:
        if not isinstance(k, str) or (k.isnumeric() and not KEY.match(k)):
            raise Reject("p", why="key")
        if k.isnumeric() and (len(k) > 3 or not 1 <= int(k) <= 192):
            raise Reject("p", why="key range")
    numbers = sorted(int(k) for k in doc if k.isnumeric())
    bits = set(numbers)
    if numbers and numbers[-1] > 128:
        bits |= {1, 65}
    elif numbers and numbers[-1] > 64:
        bits |= {1}
    maps = {}
    parts = [("p", 0)]
    if 1 in bits:
        parts.append(("1", 64))
    if 65 in bits:
        parts.append(("1", 128))
    for name, off in parts:
        if name not in spec:
            raise Reject(name, why="undefined")
        word = 0
        for i in range(1, 65):
            word = word * 2 + ((off + i) in bits)
        hexed = "%016X" % word
        if spec[name]["data_enc"] == "b":
            data = word.to_bytes(8, "big")
        else:
            data = _text(hexed, spec[name]["data_enc"], name, "bitmap encoding")
        maps[name] = maps.get(name, "") + hexed
        enc[name] = (b"", enc.get(name, (b"", b""))[1] + data)
    for n in numbers:
        name = str(n)
        if name not in spec:
            raise Reject(name, why="undefined")
        enc[name] = encode_element(doc[name], spec[name], name)
    wire = b"".join(a + b for a, b in enc.values())
    return wire, enc, maps


# ---------------------------------------------------------------- decode
class _Reader:
    def __init__(self, s):
        self.s = bytes(s)
        self.pos = 0

    def take(self, n):
        """n bytes or fewer at the end of input; does not advance."""
        return self.s[self.pos:self.pos + n]


def _untext(data, enc, field, pos):
    try:
        return data.decode(enc)
    except Exception:
        raise Reject(field, pos, "text") from None


def _read_length(r, fs, field):
    width = fs["len_type"]
    raw = r.take(width)
    if len(raw) < width:
        rej = Reject(field, r.pos, "torn length")
        rej.tail = raw
        raise rej
    if fs["len_enc"] == "b":
        n = 0
        for b in raw:
            n = n * 256 + b
    elif fs["len_enc"] == "bcd":
        h = "".join("%02x" % b for b in raw)
        if not DIGITS.match(h):
            raise Reject(field, r.pos, "length digits")
        n = int(h)
    else:
        t = _untext(raw, fs["len_enc"], field, r.pos)
        if not DIGITS.match(t):
            raise Reject(field, r.pos, "length digits")
        n = int(t)
    if n > fs["max_len"]:
        raise Reject(field, r.pos, "too long")
    r.pos += width
    return raw, n


def decode_element(r, fs, field):
    """-> (value, length part, data part)"""
    nibbles = fs.get("len_count", "bytes") == "nibbles"
    if fs["len_type"]:
        lenpart, n = _read_length(r, fs, field)
    else:
        lenpart, n = b"", fs["max_len"]
    if n == 0:
        return "", lenpart, b""
    size = (n + 1) // 2 if nibbles else n
    data = r.take(size)
    if len(data) < size:
        raise Reject(field, r.pos, "torn data")
    odd = nibbles and n % 2 == 1
    if fs["data_enc"] == "b":
        value = "".join("%02X" % b for b in data)
        if odd:
            left, right = fs.get("left_pad", "")[:1], fs.get("right_pad", "")[:1]
            if left:
                if value[0] != left.upper():
                    raise Reject(field, r.pos, "pad")
                value = value[1:]
            elif right:
                if value[-1] != right.upper():
                    raise Reject(field, r.pos, "pad")
                value = value[:-1]
            else:
                raise Reject(field, r.pos, "pad")
    else:
        if odd:
            raise Reject(field, r.pos, "half a byte of text")
        value = _untext(data, fs["data_enc"], field, r.pos)
    r.pos += size
    return value, lenpart, data


def decode(s, spec):
    """-> ({element: value}, {element: (length part, data part)}), both in wire order"""
    r = _Reader(s)
    dec, enc = {}, {}
    try:
        _decode(r, spec, dec, enc)
    except Reject as rej:
        rej.dec, rej.enc = dec, enc
        raise
    return dec, enc


def _decode(r, spec, dec, enc):
    if spec["h"]["max_len"] > 0:
        v, a, b = decode_element(r, spec["h"], "h")
        dec["h"], enc["h"] = v, (a, b)
    size = 2 if spec["t"]["data_enc"] == "b" else 4
    data = r.take(size)
    if len(data) < size:
        raise Reject("t", r.pos, "torn data")
    if spec["t"]["data_enc"] == "b":
        dec["t"] = "".join("%02X" % b for b in data)
    else:
        dec["t"] = _untext(data, spec["t"]["data_enc"], "t", r.pos)
    enc["t"] = (b"", data)
    r.pos += size

    last = "p"
    words = [_read_bitmap(r, spec, "p", dec, enc)]
    if words[0] >> 63:
        last = "1"
        if "1" not in spec:
            raise Reject("1", r.pos, "undefined")
        words.append(_read_bitmap(r, spec, "1", dec, enc))
        if words[1] >> 63:
            words.append(_read_bitmap(r, spec, "1", dec, enc))
    numbers = []
    for w, word in enumerate(words):
        for i in range(64):
            if word >> (63 - i) & 1:
                n = 64 * w + i + 1
                if n not in (1, 65):
                    numbers.append(n)
    for n in numbers:
        name = str(n)
        if name not in spec:
            raise Reject(name, r.pos, "undefined")
        v, a, b = decode_element(r, spec[name], name)
        dec[name], enc[name] = v, (a, b)
        last = name
    if r.pos != len(r.s):
        raise Reject(last, r.pos, "extra data")


def _read_bitmap(r, spec, name, dec, enc):
    fs = spec[name]
    size = 8 if fs["data_enc"] == "b" else 16
    data = r.take(size)
    if len(data) < size:
        raise Reject(name, r.pos, "torn data")
    if fs["data_enc"] == "b":
        text = "".join("%02X" % b for b in data)
    else:
        text = _untext(data, fs["data_enc"], name, r.pos)
        if len(text) != 16 or not HEX.match(text):
            raise Reject(name, r.pos, "not hex")
    dec[name] = dec.get(name, "") + text
    enc[name] = (b"", enc.get(name, (b"", b""))[1] + data)
    r.pos += size
    return int(text, 16)
