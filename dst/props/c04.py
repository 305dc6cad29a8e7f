"""C04: damaged bytes never crash, hang or fool the receiver.

System: a sender, a link that corrupts what it carries (1-4 faults per message), a receiver decoding
under a specification that may be older than the sender's.  Every decode is judged on its own: it
returns or raises DecodeError, within a step budget; what it returns accounts for the bytes received.
"""
import copy
import re

from .. import gen, model, world
from ..core import call, enc_parts, short
from ..sched import Tracer
from .common import boot, build, is_decode_error, shape, describe_spec, total, buffer_of

HEX = re.compile("[0-9A-F]*\\Z")
HEXANY = re.compile("[0-9A-Fa-f]*\\Z")


def run(run):
    t = run.t
    proc = boot(run)
    spec = gen.gen_spec(t, shipped=proc.specs, no1=0.03, nodesc=0.1)
    sender = spec
    if t.chance(0.2):
        # sender already knows fields the receiver's specification does not define
        sender = copy.deepcopy(spec)
        for n in gen.gen_numbers(t, 1 + t.below(3)):
            sender.setdefault(str(n), dict(gen.gen_field(t), desc="new"))
        run.fault("receiver_spec_older")
    if t.chance(0.12):
        spec = gen.exotic(t, spec, run)
    msgs = []
    for _ in range(1 + t.below(3)):
        doc = gen.gen_doc(t, sender, limit=gen.size(t, 400))
        s = build(run, proc, sender, doc)
        if s is not None:
            lay = []
            try:
                lay = world.layout_of(model.encode(doc, sender)[1], sender)
            except model.Reject:
                pass
            msgs.append((doc, s, lay))
            run.mark(shape(sender, doc))
    plain = [m[1] for m in msgs]
    run.ev("spec", describe_spec(spec, [k for k in spec if k in "htp1" or any(k in m[0] for m in msgs)]))
    n = 6 + t.below(20)
    for i in range(n):
        if msgs and not t.chance(0.06):
            doc, s, lay = msgs[t.below(len(msgs))]
        else:
            s, lay = gen.slice_of(t, gen.NOISE, t.below(120)), []
            run.fault("noise_frame")
        for _ in range(t.weighted([(5, 1), (2, 2), (1, 4), (1, 0)])):
            s = world.corrupt(t, s, run, plain, spec=spec, layout=lay)
        receive(run, proc, spec, s, traced=t.chance(0.1))


def receive(run, proc, spec, s, traced=False):
    if traced:
        tr = Tracer(budget=60_000 + 60 * len(s))
        out = tr.call(proc.decode, buffer_of(run, s), spec)
        run.steps += tr.n
    else:
        out = call(proc.decode, buffer_of(run, s), spec)
    run.evals += 1
    run.ev("receive", s[:60], len(s), "ok" if out.ok else type(out.exc).__name__)
    if not out.ok:
        run.check(is_decode_error(proc, out), "crash",
                  lambda: "decode(%s) raised %s; spec %s" % (short(s), out, describe_spec(spec, spec)))
        return
    run.probe("damaged_accepted")
    why = accounts(proc, spec, s, out.value)
    run.check(why is None, "fooled", lambda: "decode(%s) = %s: %s" % (short(s), short(out.value), why))


def accounts(proc, spec, s, value):
    """None if the result accounts for the bytes, else the reason."""
    try:
        dec, enc = value
    except Exception:
        return "not a pair"
    parts = enc_parts(enc)
    if parts is None or not isinstance(dec, dict):
        return "malformed result"
    if set(dec) != set(parts):
        return "decoded and encoded dictionaries list different elements"
    if not all(type(v) is str for v in dec.values()):
        return "a decoded value is not text"
    if total(parts) != s:
        return "the encoded parts do not concatenate to the input"
    order = [k for k in ("h", "t", "p", "1") if k in parts]
    numbers = sorted(int(k) for k in parts if k not in ("h", "t", "p", "1"))
    if list(parts) != order + [str(n) for n in numbers]:
        return "elements out of order: %s" % list(parts)
    # bitmaps list exactly the fields
    want, have = set(numbers), set()
    maps = dec.get("p", "") + dec.get("1", "")
    if len(dec.get("p", "")) != 16 or len(dec.get("1", "")) not in (0, 16, 32) or not HEXANY.match(maps):
        return "bitmaps malformed"
    for i, c in enumerate(maps):
        for j in range(4):
            if int(c, 16) >> (3 - j) & 1:
                have.add(4 * i + j + 1)
    if (1 in have) != ("1" in dec) or (65 in have) != (len(dec.get("1", "")) == 32):
        return "bitmap indicators do not match the bitmaps present"
    if have - {1, 65} != want:
        return "bitmaps list %s, fields decoded are %s" % (sorted(have), sorted(want))
    for k, (a, b) in parts.items():
        fs = spec.get(k)
        if fs is None:
            return "field %s is not defined" % k
        if k in ("p", "1", "t"):
            shown = b.hex().upper() if fs["data_enc"] == "b" else b.decode(fs["data_enc"])
            if a or shown != dec[k]:
                return "element %s does not show its bytes" % k
            continue
        if len(a) != fs["len_type"]:
            return "length indicator of %s has %d bytes" % (k, len(a))
        n = announced(a, fs)
        if n is None:
            return "length indicator %r of field %s is not a number" % (a, k)
        if n > fs["max_len"]:
            return "field %s announces %d, maximum %d" % (k, n, fs["max_len"])
        nib = fs.get("len_count") == "nibbles"
        if fs["data_enc"] == "b":
            if not HEX.match(dec[k]):
                return "field %s is not upper-case hex" % k
            units = len(dec[k]) if nib else len(b)
            if len(b) != (n + 1) // 2 if nib else len(b) != n:
                return "field %s announces %d, has %d bytes" % (k, n, len(b))
            shown = b.hex().upper()
            if dec[k] != shown and not (nib and n % 2 and dec[k] in (shown[1:], shown[:-1])):
                return "field %s shows %r for %r" % (k, dec[k], b)
        else:
            units = 2 * len(b) if nib else len(b)
            if b.decode(fs["data_enc"]) != dec[k]:
                return "field %s shows %r for %r" % (k, dec[k], b)
        if units != n:
            return "field %s announces %d, has %d" % (k, n, units)
    # what was understood says the same when sent on (if its encodings are one-to-one)
    for k, (a, b) in parts.items():
        for raw, enc in ((a, spec[k]["len_enc"] if k not in ("p", "1", "t") and a else "b"), (b, spec[k]["data_enc"])):
            if enc not in ("b", "bcd") and not (reversible(raw, enc) and (
                    raw is not a or len(raw.decode(enc)) == len(raw))):
                # (digits of a length that take more than a byte each do not fit where they came from)
                return None
    back = call(proc.encode, dict(dec), spec)
    if not back.ok:
        return "the decoded document cannot be encoded: %r" % back
    again = enc_parts(back.value[1])
    if again is None or total(again) != bytes(back.value[0]):
        return "re-encoding is malformed"
    for k in parts:
        if k not in ("p", "1") and again.get(k) != parts[k]:
            return "re-encoding turns %s from %r into %r" % (k, parts[k], again.get(k))
    for k in again:
        if k not in parts:
            return "re-encoding adds %s" % k
    return None


def reversible(raw, enc):
    try:
        return raw.decode(enc).encode(enc) == raw
    except Exception:
        return False


def announced(a, fs):
    """The number a length indicator states (fixed fields: the configured length)."""
    if fs["len_type"] == 0:
        return fs["max_len"]
    if fs["len_enc"] == "b":
        return int.from_bytes(a, "big")
    text = a.hex() if fs["len_enc"] == "bcd" else a.decode(fs["len_enc"])
    if not text or any(c not in "0123456789" for c in text):
        return None
    return int(text)
