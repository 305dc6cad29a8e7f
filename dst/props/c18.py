"""C18: the packaged specifications speak the standard and each other's language.

System: hosts that implement ISO 8583:1987 independently (the reference model with its own field
table), and terminals and gateways that run the library with the packaged specifications, in text
(default_ascii) and binary (default) form.  Messages cross links that tear, duplicate and repeat;
gateways change the form and restart between receiving and forwarding.
"""
import json
import random

from .. import iso87, lib, model, seams, words
from ..core import call, short, diff, strip_maps
from .common import is_decode_error, is_encode_error, lived

FORMS = {"text": iso87.TEXT, "binary": iso87.BINARY}


def pool(chars):
    r = random.Random(1987)
    return "".join(r.choice(chars) for _ in range(4096))


HEX = pool("0123456789ABCDEF")
PLAIN = pool("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz =^;:,.-+/*'\"\\")
ANY = pool("".join(map(chr, range(128))))


def some(t, chars, n):
    i = t.below(4096 - 1100)
    return chars[i:i + n]


def run(run):
    t = run.t
    for _ in range(1 + t.below(3)):
        exchange(run)
    run.nontrivial = True


class Party:
    """A host (model) or an application of the library, speaking one form."""

    def __init__(self, run, host, form):
        self.run, self.host, self.form = run, host, form
        self.std = FORMS[form]
        if not host:
            self.restart()

    def restart(self):
        self.proc = lived(self.run, lib.Process(self.run.t.weighted([(6, 0), (1, 1), (1, 2)])))
        s = self.proc.specs
        self.spec = s.default if self.form == "binary" else s.default_ascii

    def __str__(self):
        return "%s %s" % (self.form, "host" if self.host else "library")

    def send(self, doc):
        want = model.encode(doc, self.std)[0]
        if self.host:
            return want
        out = call(self.proc.encode, dict(doc), self.spec)
        self.run.evals += 1
        self.run.check(out.ok, "refused", lambda: "%s refuses the standard message %s: %r" % (
            self, short(doc), out))
        got = bytes(out.value[0])
        self.run.check(got == want, "wrong-bytes", lambda: "%s sends %s as %s, the standard is %s" % (
            self, short(doc), short(got), short(want)))
        return got

    def receive(self, s, doc):
        if self.host:
            got = model.decode(s, self.std)[0]
        else:
            out = call(self.proc.decode, s, self.spec)
            self.run.evals += 1
            self.run.check(out.ok, "unread", lambda: "%s cannot read the standard message %s (%s): %r" % (
                self, short(s), short(doc), out))
            got = out.value[0]
        want = dict(doc)
        self.run.check(strip_maps(got) == want, "changed", lambda: "%s reads %s: %s" % (
            self, short(s), diff(strip_maps(got), want)))
        return got


def exchange(run):
    t = run.t
    doc = message(t)
    run.mark(tuple(sorted(doc, key=lambda k: (len(k), k)))[:20], len(doc))
    parties = [Party(run, t.chance(0.3), t.pick(["text", "binary"])) for _ in range(2 + t.below(4))]
    if all(p.host for p in parties):
        parties[t.below(len(parties))] = Party(run, False, t.pick(["text", "binary"]))
    if t.chance(0.4):
        for _ in range(1 + t.below(4)):
            misfit(run, parties, doc)
    sent = {}                      # form -> bytes seen in that form
    cur = doc
    for a, b in zip(parties, parties[1:]):
        b = b if b.form == a.form else Party(run, b.host, a.form)     # gateways change the form inside
        s = a.send(strip_maps(cur))
        first = sent.setdefault(a.form, s)
        run.check(s == first, "changed", lambda: "after forwarding, %s sends %s, was %s" % (
            a, short(s), short(first)))
        run.ev("send", str(a), str(b), s)
        if t.chance(0.3):
            torn = s[:t.below(len(s))] if t.chance(0.6) else s + bytes([t.below(256)])
            run.fault("torn_or_run_together")
            if not b.host:
                out = call(b.proc.decode, torn, b.spec)
                run.evals += 1
                run.check(is_decode_error(b.proc, out), "torn-accepted",
                          lambda: "%s accepts %s, the message is %s: %r" % (b, short(torn), short(s), out))
        for _ in range(1 + t.chance(0.2)):
            cur = b.receive(bytearray(s) if t.chance(0.2) else s, doc)
            run.ev("received", str(b), cur)
        if not b.host:
            if t.chance(0.3):
                trace(run, b, cur)
            if t.chance(0.25):
                run.fault("restart")
                cur = json.loads(json.dumps(cur))
                b.restart()


def trace(run, party, doc):
    """A message is labelled alike whichever packaged specification traces it."""
    texts = []
    for spec in (party.proc.specs.default, party.proc.specs.default_ascii):
        st = seams.Stream()
        out = call(party.proc.pp, doc, spec, 30, st)
        run.evals += 1
        run.check(out.ok, "not-traced", lambda: "pp(%s) under a packaged specification raised %r" % (short(doc), out))
        texts.append(st.text())
    run.check(texts[0] == texts[1], "labelled-differently", lambda: "traces of %s: %s and %s" % (
        short(doc), short(texts[0], 600), short(texts[1], 600)))


def misfit(run, parties, doc):
    """A value the standard does not allow is refused by every library party, in either form."""
    t = run.t
    number = t.pick(iso87.NUMBERS)
    fs = iso87.TEXT[str(number)]
    step = 2 if iso87.BINARY[str(number)]["data_enc"] == "b" else 1
    most = fs["max_len"]
    lengths = [most + step, most + step, 2 * most, most + step * (1 + t.below(60))]
    if fs["len_type"] == 0:
        lengths += [most - step, most - step, most // 2 // step * step, 0, t.below(most) // step * step]
    n = t.pick([x for x in lengths if x != most])
    fill = t.weighted([(4, "1"), (2, "0"), (1, "F"), (1, "9"), (1, HEX)])
    bad = dict(doc, **{str(number): fill * n if len(fill) == 1 else some(t, fill, n)})
    run.fault("value_of_wrong_length")
    for p in parties:
        if not p.host:
            out = call(p.proc.encode, dict(bad), p.spec)
            run.evals += 1
            run.check(is_encode_error(p.proc, out) and out.exc.field == str(number), "not-refused",
                      lambda: "%s: field %s with %d characters: %r" % (p, number, n, out))
    if fs["len_type"]:
        # the same from a host that is allowed more
        for p in parties:
            if p.host or (n // step if p.form == "binary" else n) > (99, 999)[fs["len_type"] - 2]:
                continue
            lax = dict(p.std, **{str(number): dict(p.std[str(number)], max_len=999)})
            s = model.encode(bad, lax)[0]
            out = call(p.proc.decode, s, p.spec)
            run.evals += 1
            run.check(is_decode_error(p.proc, out) and out.exc.field == str(number), "not-refused",
                      lambda: "%s: field %s with %d characters received: %r" % (p, number, n, out))


def message(t):
    """A document that fits the standard."""
    doc = {"t": "".join(t.pick("0123456789") for _ in range(4))}
    how = t.below(4)
    if how == 0:
        numbers = [t.pick(iso87.NUMBERS) for _ in range(1 + t.below(4))]
    elif how == 1:
        numbers = [t.pick(iso87.NUMBERS) for _ in range(t.below(30))]
    elif how == 2:
        p = (1 + t.below(9)) / 10
        numbers = [n for n in iso87.NUMBERS if t.chance(p)]
    else:
        i = t.below(len(iso87.NUMBERS))
        numbers = iso87.NUMBERS[i:i + 1 + t.below(24)]
    plain = t.chance(0.8)
    numbers += [n for n in words.FIELDS if n in iso87.NUMBERS and t.chance(0.3)]
    for n in numbers:
        doc[str(n)] = value(t, str(n), plain)
    return doc


def value(t, key, plain):
    fs = iso87.BINARY[key]
    n = fs["max_len"]
    if fs["len_type"]:
        n = min(n, words.number(t, n)) if words.LENGTHS and t.chance(0.2) else t.pick([n, 0, 1, n - 1, t.below(n + 1), min(n, t.below(20))])
    if fs["data_enc"] == "b":
        return some(t, HEX, 2 * n)
    w = words.text(t)
    if w and w.isascii() and n:
        return words.blend(t, w, n, some(t, PLAIN, n))
    return some(t, PLAIN if plain else ANY, n)
