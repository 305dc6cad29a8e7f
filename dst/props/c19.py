"""C19: printed lines are folded to the line width.

System: a service tracing messages to a sink of so many columns (a terminal, a syslog, a printer) that
cuts what is beyond; an operator who reads what is left.
"""
from .. import gen, seams, words
from ..core import call, short
from .common import boot
from . import c13


def run(run):
    t = run.t
    proc = boot(run)
    spec = gen.gen_spec(t, shipped=proc.specs, nfields=t.pick([2, 5, 12, 60]), desc=t.chance(0.7), full=0.05)
    for _ in range(1 + t.below(4)):
        dw = t.pick([30, 0, 1, 5, 15, 60, -3]) if t.chance(0.7) else t.below(50)
        lw = t.pick([80, 40, 132, 20]) if t.chance(0.3) else t.below(160)
        if t.chance(0.06):
            dw = t.pick([dw, dw, 100, 200, 256, 300, 1000])
            lw = t.pick([200, 255, 256, 257, 300, 511, 512, 700, 1000, 1023, 1024, 2000, 4096]) + t.below(3)
        dw, lw = words.number(t, dw), words.number(t, lw)
        for doc in c13.documents(run, proc, spec) + [short_values(t, spec, t.chance(0.5), lw)]:
            st = seams.Stream()
            out = call(proc.pp, doc, spec, dw, st, lw)
            run.evals += 1
            run.mark(tuple(sorted(doc)), dw, lw)
            run.ev("print", sorted(doc), dw, lw, st.text())
            run.check(out.ok, "not-printed", lambda: "pp(%s) raised %r" % (short(doc), out))
            judge(run, doc, spec, st.text(), dw, lw)
            run.nontrivial = True


def short_values(t, spec, doc_dec, lw):
    """Values whose representation is about as long as a line."""
    doc = {}
    for k in gen.defined(spec)[:40 if lw < 200 else 4]:
        if t.chance(0.5):
            n = t.below(90) if lw < 200 else max(0, lw // (1 + t.below(2)) - t.below(90))
            v = "".join(t.pick("0123456789ABCDEFxyz '\"") for _ in range(n))
            if doc_dec:
                doc[k] = v
            else:
                b = bytes(t.below(256) for _ in range(n)) if t.chance(0.5) else v.encode()
                doc[k] = {"len": t.pick([b"", b"12", b"\x01\x02", b"123"]), "data": b}
    return doc


def judge(run, doc, spec, text, dw, lw):
    what = lambda: "pp(%s, desc_width=%d, line_width=%d) printed %s" % (short(doc), dw, lw, short(text, 600))
    cut = []
    for line in text.split("\n"):
        if len(line) > max(lw, 0):
            run.fault("line_cut")
            line = line[:max(lw, 0)]
        cut.append(line)
    want = c13.elements(doc, spec)
    groups = []                        # lines of each element, whole
    for i, line in enumerate(text.split("\n")[:-1]):
        if line[:1] != " " or not groups:
            groups.append([])
        groups[-1].append(i)
    lines = text.split("\n")
    run.check(len(groups) == len(want), "wrong-elements", what)
    for idx, (key, ln, data) in zip(groups, want):
        first = lines[idx[0]]
        if not first.startswith(key):
            run.check(False, "wrong-elements", what)
        room = lw - column(run, first, key, ln, spec, dw, what)
        whole = repr(data)
        if len(whole) <= room:
            run.check(len(idx) == 1 and first.endswith(whole), "folded-needlessly", lambda: "%s: %s fits" % (what(), key))
            run.probe("fits")
            continue
        if len(data) <= 1 or not foldable(data, room):
            continue
        run.fault("value_wider_than_sink")
        got = type(data)()
        try:
            for n, i in enumerate(idx):
                s = cut[i][lw - room:] if n == 0 else cut[i]
                for piece in c13.literals(s, False):
                    got += piece
        except (c13.Unreadable, TypeError):
            got = None
        run.check(got == data, "cut-by-the-sink", lambda: "%s: after the sink cut lines at %d columns, %s reads %s, is %s" % (
            what(), lw, key, short(got), short(data)))


def column(run, first, key, ln, spec, dw, what):
    """Where the data starts on an element's first line."""
    desc = spec[key]["desc"][:dw] if dw > 0 else ""
    i = first.find(desc, len(key)) if desc.strip() else len(key)
    i = first.find(": ", i + len(desc) if desc.strip() else len(key))
    run.check(i >= 0, "wrong-elements", what)
    i += 2
    if ln:
        run.check(first.startswith(repr(ln) + " ", i), "wrong-elements", what)
        i += len(repr(ln)) + 1
    return i


def foldable(data, room):
    """Can the value be folded so that no line is wider than the sink?"""
    if isinstance(data, str):
        return "\\" not in repr(data) and room >= 3
    return all(len(repr(data[i:i + 1])) <= room for i in range(len(data)))
