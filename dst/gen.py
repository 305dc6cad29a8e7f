"""Workload generator: specifications and documents, swarm style.

All choices go through the tape.  Field contents are slices of fixed pseudo-random pools, so that a
value of any size costs two tape entries and shrinks to zeros.
"""
import copy
import random

from . import words

_r = random.Random(20240607)
POOL = 1 << 17

SINGLE = ["ascii", "cp500", "latin-1", "cp037", "cp1252", "koi8-r"]
WIDE = ["utf-8", "utf-16-le"]
TEXT = SINGLE + WIDE
# codecs an operator may name by accident: stateful, multi-byte, not one-to-one, picky, or no text codecs
EXOTIC = ["idna", "punycode", "utf-7", "unicode_escape", "raw_unicode_escape", "utf-16", "utf-32", "utf-8-sig",
          "shift_jis", "gb18030", "big5", "iso2022_jp", "hz", "undefined", "rot13", "hex", "no-such-encoding"]
# other names Python knows the same encodings by
ALIASES = {"ascii": ["ASCII", "us-ascii", "646", "US_ASCII"], "cp500": ["CP500", "IBM500", "ebcdic-cp-be", "500"],
           "latin-1": ["latin1", "ISO-8859-1", "L1", "iso8859_1"], "utf-8": ["UTF8", "utf_8", "U8"],
           "cp037": ["IBM037", "037", "ebcdic-cp-us"], "cp1252": ["windows-1252", "1252"], "koi8-r": ["KOI8_R"],
           "utf-16-le": ["UTF-16LE", "utf_16_le"]}
CANON = {a: e for e, names in ALIASES.items() for a in names}
DIGIT_ENC = ["ascii", "cp500", "latin-1", "cp037", "utf-8"]


def _alphabet(enc):
    out = []
    for b in range(256):
        try:
            out.append(bytes([b]).decode(enc))
        except UnicodeDecodeError:
            pass
    return out


_ANS = [chr(c) for c in range(32, 127)]
_U = (_ANS + [chr(c) for c in range(0, 32)] + list("éüßÿ€£§ΩЖ日本語𝄞😀\u2028\u00a0\ufeff\u0660٣²½\u0301\u030a\u212bﬁ\u0130ıſẞ\x85\x7f"))
POOLS = {e: "".join(_r.choices(_alphabet(e), k=POOL)) for e in SINGLE}
POOLS["utf-8"] = "".join(_r.choices(_U, k=POOL))
POOLS["utf-16-le"] = "".join(_r.choices([c for c in _U if ord(c) < 65536], k=POOL))
ANS = "".join(_r.choices(_ANS, k=POOL))
DIGITS = "".join(_r.choices("0123456789", k=POOL))
HEXU = "".join(_r.choices("0123456789ABCDEF", k=POOL))
HEXM = "".join(_r.choices("0123456789ABCDEFabcdef", k=POOL))
NOISE = _r.randbytes(POOL)

HOT = [0, 1, 2, 3, 7, 8, 9, 10, 11, 15, 16, 19, 20, 31, 32, 37, 63, 64, 65, 99, 100, 101, 104, 127,
       128, 129, 199, 200, 254, 255, 256, 257, 511, 512, 513, 500, 998, 999, 1000, 1001, 1023, 1024, 1025,
       4095, 4096, 9998, 9999, 10000, 10001]
BIG = [32767, 32768, 65534, 65535, 65536, 65537]


def log_uniform(t, bits):
    """A number of up to so many bits: as often small as large."""
    b = 1 << t.below(bits)
    return b + t.below(b)


def slice_of(t, pool, n):
    if n <= 0:
        return pool[:0]
    return _at(pool, t.below(4096), n)


def _at(pool, k, n):
    off = k * 29
    if off + n <= POOL:
        return pool[off:off + n]
    return (pool * (1 + n // POOL + 1))[off:off + n]


def capacity(fs):
    lt, le = fs["len_type"], fs["len_enc"]
    if lt == 0:
        return fs["max_len"]
    if le == "b":
        return 256 ** lt - 1
    if le == "bcd":
        return 100 ** lt - 1
    return 10 ** lt - 1


def gen_field(t, big=False, nofault=False):
    """One random field specification."""
    data_enc = t.weighted([(30, "ascii"), (32, "b"), (8, "cp500"), (6, "latin-1"), (8, "utf-8"),
                           (3, "cp037"), (3, "cp1252"), (2, "koi8-r"), (3, "utf-16-le")])
    len_type = t.weighted([(34, 0), (20, 2), (14, 1), (18, 3), (8, 4), (3, 5), (2, 6), (1, 7), (1, 8), (1, 9)])
    len_enc = t.weighted([(40, "ascii"), (20, "b"), (20, "bcd"), (8, "cp500"), (4, "latin-1"),
                          (4, "utf-8"), (3, "cp037")])
    fs = {"data_enc": data_enc, "len_enc": len_enc, "len_type": len_type, "max_len": 0}
    count = t.weighted([(50, None), (15, "bytes"), (35, "nibbles")])
    if count:
        fs["len_count"] = count
    cap = capacity(fs) if len_type else None
    how = t.below(11)
    if how == 10:
        m = log_uniform(t, 20 if len_type and cap > 9999 else 14) if len_type else 1 + t.below(24)
    elif how <= 4:
        m = 1 + t.below(24)
    elif how <= 6:
        m = t.pick(HOT)
        if len_type == 0 and m > 300 and not t.chance(0.2):
            m %= 100
    elif how == 7 and cap is not None:
        m = max(0, min(cap, 70000) + t.below(3) - 1)
    elif how == 8:
        m = t.below(1000) if len_type else t.below(40)
    else:
        m = t.pick(BIG) if big else t.below(60)
    fs["max_len"] = m
    if data_enc != "b" and count == "nibbles" and m % 2 and len_type == 0:
        fs["max_len"] = m + 1
    pad = t.weighted([(50, None), (12, "left0"), (12, "rightF"), (5, "lefta"), (5, "right0"),
                      (4, "both"), (4, "multi"), (3, "empty"), (3, "rightf"), (3, "leftF")])
    if len_type and cap < 1000 and t.chance(0.08):
        # a maximum the length indicator cannot express
        fs["max_len"] = t.pick([cap + 1, cap * 2, cap * 3, cap * 10, cap + 157])
    if pad == "left0":
        fs["left_pad"] = "0"
    elif pad == "rightF":
        fs["right_pad"] = "F"
    elif pad == "lefta":
        fs["left_pad"] = t.pick("aA5D9e")
    elif pad == "right0":
        fs["right_pad"] = t.pick("01e9dB")
    elif pad == "both":
        fs["left_pad"], fs["right_pad"] = t.pick(["0F", "F0", "00", "1f"])
    elif pad == "multi":
        fs[t.pick(["left_pad", "right_pad"])] = t.pick(["01", "F0", "0F1", "00", "000", "FF", "FFF"])
    elif pad == "empty":
        fs["left_pad"] = ""
        if t.chance(0.5):
            fs["right_pad"] = t.pick("0F")
    elif pad == "rightf":
        fs["right_pad"] = "f"
    elif pad == "leftF":
        fs["left_pad"] = "F"
    return fs


def twin(t, fs):
    """Almost the same field: one setting differs, or none."""
    new = dict(fs)
    how = t.below(6)
    if how == 0 and new["data_enc"] == "b" and new["len_type"]:
        new["len_count"] = t.pick(["bytes", "nibbles"])
    elif how == 1:
        new.pop("left_pad", None)
        new.pop("right_pad", None)
        new[t.pick(["left_pad", "right_pad"])] = t.pick("00FA")
    elif how == 2 and new["len_type"]:
        new["len_enc"] = t.pick(["ascii", "b", "bcd", "cp500"])
    elif how == 3 and new["data_enc"] in SINGLE:
        new["data_enc"] = t.pick(SINGLE)
    elif how == 4 and new["len_type"]:
        new["len_type"] = 1 + t.below(3)
    elif how == 5 and new["len_type"]:
        new["max_len"] += t.below(5)
    return new


DESCS = ["Primary Account Number (PAN)", "", "X", "Amount: total", "it's \"quoted\"", "b'12'",
         "A rather long description that has to be cut somewhere", "Reserved for ISO Use",
         "日本語", "tab\there", "trailing  ", "MAC"]

EDGE = [2, 3, 8, 9, 32, 63, 64, 66, 67, 72, 127, 128, 129, 130, 136, 137, 191, 192]


def gen_numbers(t, n, lo3=True):
    """n distinct field numbers, biased to the edges of bitmaps and bytes."""
    top = t.weighted([(4, 64), (4, 128), (4 if lo3 else 0, 192)])
    out = set()
    for _ in range(n):
        if words.FIELDS and t.chance(0.3):
            k = t.pick(words.FIELDS)
        elif t.chance(0.45):
            k = t.pick(EDGE)
        else:
            k = 2 + t.below(191)
        if k > top:
            k = 2 + (k - 2) % (top - 1)
        if k == 65:
            k = 66
        out.add(k)
    return sorted(out)


def gen_bitmap(t):
    e = t.weighted([(5, "b"), (4, "ascii"), (3, "cp500"), (1, "latin-1"), (1, "utf-8")])
    return {"data_enc": e, "len_enc": "ascii", "len_type": 0, "max_len": 8 if e == "b" else 16,
            "desc": "Bitmap"}


def gen_spec(t, shipped=None, nfields=None, big=False, desc=False, full=0.06, alias=0.08, no1=0.0, nodesc=0.0):
    """A random specification.  shipped: module holding the packaged ones (used now and then)."""
    spec = _gen_spec(t, shipped, nfields, big, desc, full)
    if t.chance(no1):
        # a network that has primary bitmaps only
        del spec["1"]
        if t.chance(0.6):
            for k in [k for k in defined(spec) if int(k) > 64]:
                del spec[k]
    if t.chance(0.15):
        # the order of a specification's keys means nothing
        items = list(spec.items())
        items = items[::-1] if t.chance(0.3) else t.shuffle(items)
        spec = dict(items)
    for fs in spec.values():
        if not fs["len_type"] and t.chance(0.03):
            # plays no role in a field without a length
            fs["len_enc"] = t.pick(["", "none", "no-such-encoding", "b", "bcd", "hex", "undefined"])
    if t.chance(nodesc):
        # plays no role in encoding and decoding
        every = t.chance(0.5)
        for fs in spec.values():
            if every or t.chance(0.5):
                del fs["desc"]
    if t.chance(alias):
        for fs in spec.values():
            for k in ("data_enc", "len_enc"):
                if fs[k] in ALIASES and t.chance(0.6):
                    fs[k] = t.pick(ALIASES[fs[k]])
    return spec


def _gen_spec(t, shipped, nfields, big, desc, full):
    if shipped is not None and t.chance(full):
        spec = copy.deepcopy(t.pick([shipped.default, shipped.default_ascii]))
        for _ in range(t.below(4)):
            k = str(2 + t.below(191))
            spec[k] = gen_field(t, big)
            spec[k]["desc"] = "changed"
        return spec
    spec = {}
    if t.chance(0.3):
        h = gen_field(t)
        if h["max_len"] == 0 or h["max_len"] > 40:
            h["max_len"] = 1 + h["max_len"] % 40
        if h["len_type"] == 0:
            # every message must have a header, so some header must exist
            nib = h.get("len_count") == "nibbles"
            m = 1
            if nib and (h["data_enc"] != "b" or not (h.get("left_pad") or h.get("right_pad"))):
                m *= 2
            if h["data_enc"] == "utf-16-le":
                m *= 2
            h["max_len"] += -h["max_len"] % m
        spec["h"] = h
    else:
        spec["h"] = {"data_enc": "ascii", "len_enc": "ascii", "len_type": 0, "max_len": 0}
        if t.chance(0.3):
            # disabled by max_len alone
            spec["h"] = dict(gen_field(t), max_len=0)
    te = t.weighted([(5, "ascii"), (3, "b"), (3, "cp500"), (1, "latin-1"), (1, "utf-8")])
    spec["t"] = {"data_enc": te, "len_enc": "ascii", "len_type": 0, "max_len": 2 if te == "b" else 4}
    spec["p"] = gen_bitmap(t)
    spec["1"] = copy.copy(spec["p"]) if t.chance(0.6) else gen_bitmap(t)
    if nfields is None:
        nfields = t.weighted([(20, 3), (28, 6), (16, 12), (4, 40), (1, 150)])
    last = None
    twins = t.weighted([(5, 0.0), (1, 0.5)])
    for n in gen_numbers(t, nfields):
        if last is not None and twins and t.chance(twins):
            last = twin(t, last)
        else:
            last = gen_field(t, big)
        spec[str(n)] = last
    for k, fs in spec.items():
        if "desc" not in fs:
            fs["desc"] = t.pick(DESCS) if desc else "F" + k
    if t.chance(0.3):
        spec["65"] = {"data_enc": "b", "len_enc": "ascii", "len_type": 0, "max_len": 8,
                      "desc": "Bitmap, Extended"}
    return spec


def exotic(t, spec, run):
    """The same specification with some text encodings replaced by unusual ones."""
    out = copy.deepcopy(spec)
    n = 0
    for k, fs in out.items():
        if k in ("p", "1", "65"):
            continue
        if fs["data_enc"] != "b" and t.chance(0.5):
            fs["data_enc"] = words.text(t) or t.pick(EXOTIC)
            n += 1
        if k != "t" and fs["len_type"] and fs["len_enc"] not in ("b", "bcd") and t.chance(0.15):
            fs["len_enc"] = t.pick(EXOTIC)
            n += 1
    if n:
        run.fault("unusual_encoding", n)
    return out


def sibling(t, spec):
    """Another network's version of a specification: the same fields in other encodings and lengths."""
    out = copy.deepcopy(spec)
    for k, fs in out.items():
        if k in ("p", "1", "65") or not t.chance(0.7):
            continue
        if fs["data_enc"] != "b":
            fs["data_enc"] = t.pick(["ascii", "cp500", "utf-8", "latin-1"])
        if k == "t":
            continue
        if fs["len_type"]:
            fs["len_enc"] = t.pick(["ascii", "b", "bcd", "cp500"])
            fs["len_type"] = max(1, fs["len_type"] - t.below(2))
    return out


def defined(spec):
    return [k for k in spec if k.isnumeric() and k not in ("1", "65")]


# ---------------------------------------------------------------- values
def text_of(t, enc, nbytes, style=None):
    """Text that encodes to exactly nbytes in enc, or None."""
    if style is None:
        style = t.below(4)
    enc = CANON.get(enc, enc)
    if enc == "utf-16-le":
        if nbytes % 2:
            return None
        n = nbytes // 2
        if style == 3:
            return slice_of(t, POOLS[enc], n)
    elif enc == "utf-8":
        n = nbytes
        if style == 3:
            raw = slice_of(t, POOLS[enc], n).encode("utf-8")[:n]
            s = raw.decode("utf-8", "ignore")
            return s + "x" * (n - len(s.encode("utf-8")))
    else:
        n = nbytes
        if style == 3:
            return slice_of(t, POOLS.get(enc, ANS), n)
    if style == 0:
        return "0" * n
    return slice_of(t, DIGITS if style == 1 else ANS, n)


def size(t, usual, rare=0.01):
    """A limit for generated values: mostly the usual one, now and then none."""
    return None if t.chance(rare) else usual


def units(t, fs, limit=None):
    """A length the field can carry."""
    if fs["len_type"] == 0:
        return fs["max_len"]
    top = min(fs["max_len"], capacity(fs))
    if words.LENGTHS and t.chance(0.15):
        n = t.pick(words.LENGTHS)
        if n <= top:
            return n
    if limit is not None:
        top = min(top, limit)
    how = t.below(9 if top > 300 else 8)
    if how <= 2:
        n = t.below(min(top, 20) + 1)
    elif how == 3:
        n = top if top < 1200 or t.chance(0.15) else top % 1000
    elif how == 4:
        n = top - 1 if top < 1200 or t.chance(0.15) else top % 100
    elif how == 5:
        n = t.pick(HOT)
    elif how == 6:
        n = 0
    elif how == 8:
        n = t.pick(BIG) if top > 9999 and t.chance(0.4) else log_uniform(t, 17 if t.chance(0.3) else 14)
        if n > top:
            n = n % (top + 1)
    else:
        n = t.below(min(top, 300) + 1)
    return max(0, min(n, top))


def gen_value(t, fs, limit=None):
    """A value that fits the field, or None when there is none for the length drawn."""
    n = units(t, fs, limit)
    nib = fs.get("len_count") == "nibbles"
    if fs["data_enc"] == "b":
        digits = n if nib else 2 * n
        if digits % 2:
            pad = fs.get("left_pad", "")[:1] or fs.get("right_pad", "")[:1]
            if not pad:
                if fs["len_type"] == 0 or n == 0:
                    return None
                digits -= 1
        w = words.text(t)
        if w is not None and digits:
            try:
                bytes.fromhex(w + "0" * (len(w) % 2))
            except ValueError:
                w = w.encode("utf-8", "replace").hex().upper()
            return words.blend(t, w, digits, slice_of(t, HEXU, digits))
        style = t.below(4)
        if style == 0:
            return "0" * digits
        return slice_of(t, (DIGITS, HEXU, HEXM)[style - 1], digits)
    if nib:
        if n % 2:
            if fs["len_type"] == 0 or n == 0:
                return None
            n -= 1
        n //= 2
    w = words.text(t)
    if w is not None and n:
        enc = CANON.get(fs["data_enc"], fs["data_enc"])
        v = words.blend(t, w, n // 2 if enc == "utf-16-le" else n, slice_of(t, ANS if t.chance(0.5) else DIGITS, n))
        try:
            if len(v.encode(enc)) == n:
                return v
        except Exception:
            pass
    v = text_of(t, fs["data_enc"], n)
    if v is None and fs["len_type"]:
        v = text_of(t, fs["data_enc"], n - 1)
        if v is not None and nib and len(v.encode(fs["data_enc"])) * 2 > fs["max_len"]:
            return None
    return v


class Duck:
    """Looks like text from afar."""

    def __init__(self, answer):
        self.answer = answer

    def encode(self, *a):
        return self.answer

    def isnumeric(self):
        return True

    def __len__(self):
        return 4

    def __repr__(self):
        return "Duck(%r)" % (self.answer,)

    def __eq__(self, other):
        return type(other) is Duck and other.answer == self.answer

    def __hash__(self):
        return hash(repr(self))


BAD_VALUES = [None, 5, ["1"], 2.5, ("a",), {"a": 1}, True, Duck(None), Duck("0200"), Duck(b"0200"), Duck(["1"])]


def gen_bad_value(t, fs):
    """A value that (usually) does not fit the field; the model decides."""
    how = t.below(9)
    good = gen_value(t, fs)
    if good is None:
        good = ""
    if how == 0:
        return good + "00" if fs["len_type"] == 0 else good + "0" * (fs["max_len"] % 2000 + 1)
    if how == 1:
        return good + "0"
    if how == 2:
        return good[:-1] if good else "0"
    if how == 3:
        if fs["data_enc"] != "b" and t.chance(0.1):
            return t.pick([b"0200", bytearray(b"12")])
        return t.pick(BAD_VALUES)
    if how == 4:
        c = t.pick(["x", " ", "\n", "é", "\ud800", "日", "G", "+", "\x00", "٣", "_", "😀"])
        k = t.below(len(good) + 1)
        return good[:k] + c + good[k + 1:]
    if how == 5:
        return good[:-2]
    if how == 6:
        return ""
    if how == 7:
        n = fs["max_len"] + 1 + t.below(3)
    else:
        # wider than the length indicator can say, or far off
        cap = capacity(fs)
        if cap <= fs["max_len"]:
            n = (cap + 1 + t.below(3), fs["max_len"] - t.below(2), cap + t.below(max(1, fs["max_len"] - cap)))[t.below(3)]
        else:
            n = min(fs["max_len"], 3000) + t.pick(HOT)
    if n > 3000:
        n = 3000
    if fs["data_enc"] == "b" and fs.get("len_count") != "nibbles":
        n *= 2
    elif fs["data_enc"] != "b" and fs.get("len_count") == "nibbles":
        n = n // 2 + t.below(2)
    return slice_of(t, DIGITS, n)


def fits(v, fs):
    from . import model
    try:
        model.encode_element(v, fs, "")
    except Exception:
        return False
    return True


def gen_type(t, spec):
    e = spec["t"]["data_enc"]
    w = words.text(t)
    if w is not None and w.isascii() and w.isdecimal() and len(w) <= 4:
        return w + "0210"[len(w):]
    if e == "b":
        return slice_of(t, HEXM if t.chance(0.3) else DIGITS, 4)
    if t.chance(0.2):
        return text_of(t, e, 4)
    return t.pick(["0200", "0210", "0100", "0110", "0800", "0420", "1814"])


EXTRA_KEYS = ["bm", "x1", "-2", "2.5", "", "H", "T", " 2", "+3", "1e1", "0x2", "P"]


def gen_doc(t, spec, p=None, extra=True, limit=None, most=None):
    """A document that fits the specification.  most: characters in all fields together."""
    doc = {}
    if spec["h"]["max_len"] > 0:
        v = gen_value(t, spec["h"])
        doc["h"] = v if v is not None else fallback(spec["h"])
    elif extra and t.chance(0.12):
        doc["h"] = "ignored"
    doc["t"] = gen_type(t, spec)
    keys = defined(spec)
    if p is None:
        p = t.weighted([(4, 0.4), (3, 0.8), (2, 0.15), (1, 1.0), (1, 0.0)])
    if len(keys) > 60 and not t.chance(0.12):
        p = min(p, 0.15)
    chosen = [k for k in keys if t.chance(p)]
    if words.FIELDS:
        chosen += [k for k in map(str, words.FIELDS) if k in spec and k not in chosen and t.chance(0.4)]
    if len(chosen) > 1 and t.chance(0.3):
        t.shuffle(chosen)
    same = t.weighted([(8, 0.0), (1, 0.5)])
    v = None
    for k in chosen:
        if v and same and t.chance(same) and fits(v, spec[k]):
            doc[k] = v                # the value of another field, the very object
            continue
        v = gen_value(t, spec[k], limit)
        if v is not None and most is not None:
            most -= len(v)
            if most < 0:
                most += len(v)
                continue
        if v is not None:
            doc[k] = v
    if extra and t.chance(0.12):
        # bitmaps left over from a decoded message: right or wrong, in either case of letters
        right = bitmaps(doc) if t.chance(0.4) else {}
        for k in ("p", "1", "65"):
            if k in right:
                doc[k] = right[k].lower() if t.chance(0.6) else right[k]
            elif t.chance(0.5):
                doc[k] = t.pick(["spam", "", "FFFFFFFFFFFFFFFF", "8000000000000000"])
    w = words.text(t, 0.05)
    if extra and w is not None and not w.isnumeric() and w not in ("h", "t"):
        doc[w] = t.pick(["y", "", "1"])
    if extra and t.chance(0.06):
        doc[t.pick(EXTRA_KEYS)] = t.pick(["y", "", "1"])
    if extra and t.chance(0.2):
        doc = dict(t.shuffle(list(doc.items())))
    return doc


def bitmaps(doc):
    """The bitmaps a message with these fields has, as decode shows them."""
    nums = {int(k) for k in doc if k.isdecimal() and k not in ("1", "65")}
    third = sum(1 << (192 - n) for n in nums if n > 128)
    second = sum(1 << (128 - n) for n in nums if 64 < n <= 128) | (bool(third) << 63)
    out = {"p": "%016X" % (sum(1 << (64 - n) for n in nums if n <= 64) | (bool(second) << 63))}
    if second:
        out["1"] = "%016X" % second + ("%016X" % third if third else "")
    return out


def fallback(fs):
    """Some value that fits, without the tape (headers must exist)."""
    n = fs["max_len"] if fs["len_type"] == 0 else 0
    nib = fs.get("len_count") == "nibbles"
    if fs["data_enc"] == "b":
        return "0" * (n if nib else 2 * n)
    if nib:
        n //= 2
    if CANON.get(fs["data_enc"], fs["data_enc"]) == "utf-16-le":
        n //= 2
    return "0" * n
