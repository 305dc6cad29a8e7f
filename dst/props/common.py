"""Helpers shared by the property modules."""
from .. import gen, lib, model, seams, words
from ..core import call, enc_parts


def boot(run):
    """A simulated process at a drawn optimisation level; now and then one with a past."""
    return lived(run, lib.Process(run.t.weighted([(8, 0), (1, 1), (1, 2)])))


def lived(run, proc):
    """The process, now and then with a past: some failures, or a long working life."""
    if run.t.chance(0.04):
        age(run, proc)
    elif run.t.chance(0.02 if words.COUNTS else 0.004):
        serve(run, proc)
    return proc


def serve(run, proc):
    """A past of thousands of calls, no two alike, most of which succeeded."""
    t = run.t
    n = t.pick([1500, 3000, 6000, 12000])
    if words.COUNTS and t.chance(0.7):
        n = max(0, t.pick(words.COUNTS) - t.below(3))
    mostly = t.pick(["encode", "decode", "pp", "all", "all"])
    base = t.pick([proc.specs.default, proc.specs.default_ascii])
    bitmap = b"0020000000000000" if base["p"]["data_enc"] != "b" else b"\0\x20" + bytes(6)
    spec = base
    renew = t.pick([0, 3, 50])
    some = [(k, base[k]["max_len"], base[k]["len_type"] == 0) for k in (
        "2", "4", "12", "22", "32", "35", "38", "41", "60", "70", "90", "95", "102", "120")]
    enc, dec, pp = proc.encode, proc.decode, proc.pp
    for i in range(n):
        if renew and i % renew == 0:
            spec = {k: dict(v) for k, v in base.items()}
            spec["48"]["max_len"] = 100 + i % 800
        doc = {"t": "%04d" % (i % 10000), "11": "%06d" % i, "37": "%012d" % (i * 7919), "48": "x" * (i % 97)}
        bits = i * 0x9E3779B97F4A7C15 >> 7
        for j, (k, width, fixed) in enumerate(some):
            if bits >> j & 1 and (j < 6 or bits >> 20 & 1):
                doc[k] = "%0*d" % (width, i % 10 ** width) if fixed else "%d" % i
        if i % 11 == 0:
            doc["3"] = "1"                  # refused
        if mostly == "encode" or mostly == "all":
            call(enc, doc, spec)
        if mostly == "decode" or mostly == "all":
            s = b"%04d%s%06d" % (i % 10000, bitmap, i)
            call(dec, s if i % 13 else s[:i % 30], spec)
        if mostly == "pp" or mostly == "all" and i % 4 == 0:
            call(pp, doc, spec, 30, seams.Stream(), 80 - i % 50)
    run.ev("served", n, mostly)
    run.probe("process_with_a_long_past", 1)


class Deaf:
    def write(self, s):
        raise OSError("closed")


class Quit(BaseException):
    pass


def age(run, proc):
    """A past of up to a thousand calls that mostly failed, of one kind or of several."""
    t = run.t
    spec = {k: dict(v) for k, v in proc.specs.default_ascii.items()}
    spec["41"]["data_enc"] = spec["42"]["len_enc"] = "no such encoding"
    spec["42"]["len_type"] = 2
    spec["43"]["data_enc"] = "utf-8"
    del spec["50"]

    def interrupted():
        countdown = [t.below(12)]

        def hook():
            countdown[0] -= 1
            if countdown[0] < 0:
                raise Quit()
        return hook

    dec, enc, pp = proc.decode, proc.encode, proc.pp
    kinds = [
        lambda: call(dec, b"02", spec),
        lambda: call(dec, b"02004000000000000000193", spec),
        lambda: call(dec, b"0200400000000000000x", spec),
        lambda: call(dec, b"02000000000000000000tail", spec),
        lambda: call(dec, b"0200000000000080000012345678", spec),
        lambda: call(dec, b"0200000000000020000012345678", spec),
        lambda: call(dec, b"02000000000000004000978", spec),
        lambda: call(enc, {}, spec),
        lambda: call(enc, {"t": "0200", "3": "1"}, spec),
        lambda: call(enc, {"t": "0200", "02": "1"}, spec),
        lambda: call(enc, {"t": "0200", "41": "12345678"}, spec),
        lambda: call(enc, {"t": "0200", "42": "12"}, spec),
        lambda: call(enc, {"t": "0200", "50": "978"}, spec),
        lambda: call(enc, {"t": "0200", "43": "\ud800"}, spec),
        lambda: call(enc, {"t": "0200", "2": "1234", "70": "001"}, spec),
        lambda: call(pp, {"t": "0200", "2": "1234"}, spec, 30, Deaf()),
        lambda: call(pp, {"t": "0200", "2": "1234" * 40}, spec, 30, seams.Stream(), 40),
        lambda: call(enc, {"t": "0200", "2": "1234"}, seams.wrap_spec(spec, interrupted())),
        lambda: call(dec, b"02004000000000000000041234", seams.wrap_spec(spec, interrupted())),
    ]
    mix = [t.pick(kinds) for _ in range(t.pick([1, 1, 2, 5]))]
    n = gen.log_uniform(t, 10)
    for i in range(n):
        mix[i % len(mix)]()
    run.ev("aged", n)
    run.probe("process_with_a_past", 1)


def build(run, proc, spec, doc, peer=0.3):
    """Bytes of a message: from the library, or from the independent peer; None if neither can."""
    if run.t.chance(peer):
        try:
            return model.encode(doc, spec)[0]
        except model.Reject:
            pass
    out = call(proc.encode, dict(doc), spec)
    run.evals += 1
    if out.ok:
        try:
            return bytes(out.value[0])
        except Exception:
            return None
    try:
        return model.encode(doc, spec)[0]
    except model.Reject:
        return None


def good_messages(run, proc, spec, n, **kw):
    """Up to n messages under one specification: [(doc, bytes)]."""
    out = []
    for _ in range(n):
        doc = gen.gen_doc(run.t, spec, **kw)
        s = build(run, proc, spec, doc)
        if s is not None:
            out.append((doc, s))
    return out


def buffer_of(run, s):
    """The bytes as the application happens to hold them."""
    return bytearray(s) if run.t.chance(0.3) else s


def is_decode_error(proc, out):
    return (not out.ok) and isinstance(out.exc, proc.DecodeError) and isinstance(out.exc, ValueError)


def is_encode_error(proc, out):
    return (not out.ok) and isinstance(out.exc, proc.EncodeError) and isinstance(out.exc, ValueError)


def shape(spec, doc):
    """Coarse signature of a message: which kinds of fields in which order."""
    keys = sorted((int(k) for k in doc if isinstance(k, str) and k.isdecimal() and k in spec
                   and k not in ("1", "65") and len(k) < 4))
    out = []
    for k in keys[:12]:
        fs = spec[str(k)]
        v = doc.get(str(k))
        out.append((k, fs["data_enc"], fs["len_enc"] if fs["len_type"] else "", fs["len_type"],
                    fs.get("len_count", ""), len(v) % 4 if isinstance(v, str) else -1))
    return tuple(out)


def describe_spec(spec, keys):
    return {k: {a: b for a, b in spec[k].items() if a != "desc"} for k in keys if k in spec}


def total(parts):
    return b"".join(a + b for a, b in parts.values())


__all__ = [n for n in dir() if not n.startswith("_")]
