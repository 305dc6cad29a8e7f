"""C13: printed traces are complete and can be read back.

System: a service tracing every message to a log on a disk that loses its unsynced tail in a crash; an
operator who reads the survivors with a parser that knows only the specification and the widths.
"""
import ast
import re

from .. import gen, lib, seams, words
from ..core import call, freeze, short, diff
from .common import boot, shape
from . import ops

LITERAL = re.compile(r"""b?(?:'(?:[^'\\]|\\.)*'|"(?:[^"\\]|\\.)*")""", re.S)


class Unreadable(Exception):
    pass


def run(run):
    t = run.t
    proc = boot(run)
    spec = gen.gen_spec(t, shipped=proc.specs, nfields=t.pick([2, 5, 12, 60]), desc=t.chance(0.7), full=0.08)
    dw = t.pick([30, 0, 1, 5, 15, 60, -3]) if t.chance(0.7) else t.below(50)
    lw = t.pick([80, 40, 20, 10, 5, 1, 0, -1, 132]) if t.chance(0.7) else t.below(160)
    if t.chance(0.04):
        dw = t.pick([100, 128, 200, 255, 256, 300, 500, 999, 1000, 1024, 2000, 4096]) + t.below(3)
    if t.chance(0.04):
        lw = t.pick([100, 128, 200, 255, 256, 300, 500, 999, 1000, 1024, 2000, 4096]) + t.below(3)
    dw, lw = words.number(t, dw), words.number(t, lw)
    disk = seams.Disk()
    log = []           # every element ever printed, in order: (key, literals or None, end offset)
    pos = 0
    for _ in range(1 + t.below(4)):
        for doc in documents(run, proc, spec):
            st = seams.Stream()
            if t.chance(0.04):
                # widths as they come out of a configuration file
                out = call(proc.pp, doc, spec, t.pick([str, float])(dw), st, t.pick([str, float])(lw))
            else:
                out = call(proc.pp, doc, spec, dw, st, lw)
            run.evals += 1
            text = st.text()
            run.ev("print", sorted(doc), text[:200])
            run.mark(tuple(sorted(doc)), dw, lw)
            run.check(out.ok, "not-printed", lambda: "pp(%s) raised %r" % (short(doc), out))
            want = elements(doc, spec)
            try:
                got = parse(text, spec, dw)
            except Unreadable as e:
                run.check(False, "unreadable", "pp(%s, desc_width=%d, line_width=%d) printed %s: %s" % (
                    short(doc), dw, lw, short(text, 600), e))
            compare(run, got, want, "pp(%s, desc_width=%d, line_width=%d) printed %s" % (
                short(doc), dw, lw, short(text, 500)))
            for w in st.writes:
                disk.append(w.encode("utf-8"))
            log.append((text, want))
            if t.chance(0.3):
                disk.sync()
    if t.chance(0.7):
        run.fault("crash")
        survived = disk.crash(t, run.fault).decode("utf-8", "ignore")
    else:
        disk.sync()
        survived = disk.synced.decode("utf-8")
    # the operator: read whatever survived
    whole, done = "", []
    for text, want in log:
        if len(whole) + len(text) <= len(survived):
            whole += text
            done += want
        else:
            run.probe("torn_trace")
            whole += text
            done += want
            break
    run.check(whole.startswith(survived), "log-lost", "the log does not hold what was printed")
    try:
        got = parse(survived, spec, dw, torn=len(survived) < len(whole))
    except Unreadable as e:
        run.check(False, "unreadable", "surviving trace %s: %s" % (short(survived, 600), e))
    if len(survived) < len(whole):
        got = got[:-1]                     # the last element may be incomplete
        run.check(len(got) <= len(done), "unreadable", "more elements read than written")
        # every element whose successor began was completely written
        compare(run, got, done[:len(got)], "surviving trace %s" % short(survived, 500))
        n = complete(survived, log, spec, dw)
        run.check(len(got) >= n - 1, "unreadable", lambda: "%d elements were completely written, %d read from %s" % (
            n, len(got), short(survived, 500)))
    else:
        compare(run, got, done, "trace %s" % short(survived, 500))
    run.nontrivial = True


def documents(run, proc, spec):
    """What a service traces: documents and encoded dictionaries of traffic, whole and broken."""
    t = run.t
    doc = gen.gen_doc(t, spec, limit=t.weighted([(10, 20), (10, 60), (10, 200), (10, 700), (1, 5000)]))
    enc = call(proc.encode, doc, spec)
    out = []
    if enc.ok:
        s = bytes(enc.value[0])
        if t.chance(0.4) and len(s) > 1:
            s = s[:t.below(len(s))]
            run.fault("torn_message_traced")
        dec = call(proc.decode, s, spec)
        if dec.ok:
            out += [dec.value[0], dec.value[1]]
        elif hasattr(dec.exc, "doc_dec"):
            out += [dec.exc.doc_dec, dec.exc.doc_enc]
        if t.chance(0.4):
            out.append(enc.value[1])
    if t.chance(0.5):
        out.append(doc)
    out = [d for d in out if isinstance(d, dict) and all(printable(d, spec, k) for k in d)]
    if out and t.chance(0.5):
        out = [t.pick(out)]
    return out


def printable(d, spec, k):
    if k.isnumeric():
        return k in spec and k.isdecimal()
    return True


def elements(doc, spec):
    """What the trace must contain: [(key, length indicator or None, data)]"""
    keys = []
    if "h" in doc and spec["h"]["max_len"] > 0:
        keys.append("h")
    keys += [k for k in ("t", "p") if k in doc]
    keys += sorted((k for k in doc if k.isnumeric()), key=int)
    out = []
    for k in keys:
        v = doc[k]
        if isinstance(v, dict):
            out.append((k, v["len"], v["data"]))
        else:
            out.append((k, b"", v))
    return out


def parse(text, spec, dw, torn=False):
    """Read a trace back: [(key, [literals of the first line], [literals of continuation lines])]"""
    out = []
    lines = text.split("\n")
    if lines[-1] == "":
        lines.pop()
    for i, line in enumerate(lines):
        last = torn and i == len(lines) - 1
        if line[:1] != " ":
            key = re.match(r"[a-z]|[0-9]+", line)
            if key is None:
                if last:
                    break
                raise Unreadable("line %r starts no element" % line)
            key = key.group()
            rest = line[len(key):]
            if key not in spec:
                if last:
                    break
                raise Unreadable("line %r: no such element" % line)
            desc = spec[key]["desc"][:dw] if dw > 0 else ""
            rest = rest.lstrip(" ")
            if desc.strip():
                if not rest.startswith(desc.lstrip(" ")):
                    if last:
                        out.append([key, None, []])
                        break
                    raise Unreadable("line %r: description is not %r" % (line, desc))
                rest = rest[len(desc.lstrip(" ")):]
            rest = rest.lstrip(" ")
            if not rest.startswith(": "):
                if last:
                    out.append([key, None, []])
                    break
                raise Unreadable("line %r: no separator" % line)
            out.append([key, literals(rest[2:], last), []])
        else:
            if not out:
                raise Unreadable("continuation line %r continues nothing" % line)
            out[-1][2] += literals(line, last) or []
    return out


def literals(s, lenient):
    out, i = [], 0
    while i < len(s):
        if s[i] == " ":
            i += 1
            continue
        m = LITERAL.match(s, i)
        if m is None:
            if lenient:
                return out
            raise Unreadable("%r is not a sequence of literals" % s)
        try:
            out.append(ast.literal_eval(m.group()))
        except Exception:
            raise Unreadable("%r is not a literal" % m.group()) from None
        i = m.end()
    return out


def compare(run, got, want, what):
    run.check([g[0] for g in got] == [w[0] for w in want], "wrong-elements",
              lambda: "%s: elements %s, should be %s" % (what, [g[0] for g in got], [w[0] for w in want]))
    for (k, first, more), (_, ln, data) in zip(got, want):
        vals = list(first or [])
        if ln:
            run.check(vals[:1] == [ln], "wrong-literal", lambda: "%s: length indicator of %s reads %r, is %r" % (
                what, k, vals[:1], ln))
            vals = vals[1:]
        vals += more
        run.check(vals and all(type(v) is type(data) for v in vals), "wrong-literal",
                  lambda: "%s: data of %s reads %r, is %r" % (what, k, vals, data))
        run.check(type(data)().join(vals) == data, "wrong-literal", lambda: "%s: data of %s reads %r, is %r" % (
            what, k, type(data)().join(vals), data))


def complete(survived, log, spec, dw):
    """How many elements lie entirely within the surviving text."""
    n, pos = 0, 0
    for text, want in log:
        if pos + len(text) <= len(survived):
            n += len(want)
            pos += len(text)
            continue
        part = survived[pos:]
        starts = [m.start() for m in re.finditer(r"^[^ \n]", text, re.M)]
        ends = starts[1:] + [len(text)]
        n += sum(1 for e in ends if e <= len(part))
        break
    return n
