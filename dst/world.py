"""Discrete-event world: simulated clock, event queue, faulty links."""
import heapq

from . import lib, words


class World:
    def __init__(self, run):
        self.run = run
        self.t = run.t
        self.now = 0.0
        self.seq = 0
        self.q = []

    def after(self, delay, fn, *args):
        self.seq += 1
        heapq.heappush(self.q, (self.now + delay, self.seq, fn, args))

    def step(self):
        at, seq, fn, args = heapq.heappop(self.q)
        if at > self.now:
            lib.CLOCK.advance(at - self.now)
            self.now = at
        fn(*args)

    def go(self, until=1e9, max_events=100000):
        n = 0
        while self.q and self.q[0][0] <= until:
            n += 1
            if n > max_events:
                raise RuntimeError("simulation does not settle")
            self.step()
        self.run.sim += self.now
        return n


class Link:
    """Message link: delay, loss, duplication, reordering (by random delay)."""

    def __init__(self, world, cfg):
        self.w = world
        self.cfg = cfg
        self.up = True

    def send(self, deliver, payload):
        t, run, c = self.w.t, self.w.run, self.cfg
        copies = 1
        if c["faults_on"]():
            if not self.up:
                run.fault("partitioned")
                return
            if c["loss"] and t.chance(c["loss"]):
                run.fault("loss")
                return
            if c["dup"] and t.chance(c["dup"]):
                run.fault("duplicate")
                copies = 2
        for _ in range(copies):
            d = c["latency"] * (1 + t.below(8)) if c["jitter"] else c["latency"]
            if c["faults_on"]() and c["slow"] and t.chance(c["slow"]):
                run.fault("delay_reorder")
                d += c["latency"] * (10 + t.below(60))
            self.w.after(d, deliver, payload)


def chunks(t, data, mode):
    """Cut a byte string into the pieces a stream delivers."""
    if mode == 0:
        return [data] if data else []
    if mode == 1:
        return [data[i:i + 1] for i in range(len(data))]
    out, i = [], 0
    while i < len(data):
        n = 1 + t.below(24 if len(data) < 4000 else 4000)
        out.append(data[i:i + n])
        i += n
    return out


# ---------------------------------------------------------------- corruption of bytes in transit
def corrupt(t, s, run, others=(), spec=None, layout=None, encs=None):
    """One corruption of a byte string; returns the damaged bytes."""
    b = bytearray(s)
    n = len(b)
    kind = t.weighted([(5, "bitflip"), (5, "overwrite"), (3, "lost"), (3, "inserted"), (2, "swap"),
                       (2, "dup_block"), (3, "cut"), (2, "appended"), (2, "zeroed"), (6, "digit"),
                       (6, "aimed"), (1, "noise"), (2, "spliced"),
                       (8 if layout and spec else 0, "announced"), (1 if layout and spec else 0, "copied")])
    if n == 0:
        kind = "noise"
    if kind == "bitflip":
        for _ in range(1 + t.below(3)):
            b[t.below(n)] ^= 1 << t.below(8)
    elif kind == "overwrite":
        for _ in range(1 + t.below(4)):
            b[t.below(n)] = t.below(256)
    elif kind == "lost":
        i = t.below(n)
        del b[i:i + 1 + t.below(4)]
    elif kind == "inserted":
        i = t.below(n + 1)
        w = words.text(t, 0.4)
        b[i:i] = w.encode("utf-8", "replace") if w else bytes(t.below(256) for _ in range(1 + t.below(4)))
    elif kind == "swap":
        i, j = t.below(n), t.below(n)
        b[i], b[j] = b[j], b[i]
    elif kind == "dup_block":
        i = t.below(n)
        blk = b[i:i + 1 + t.below(8)]
        b[i:i] = blk
    elif kind == "cut":
        del b[t.below(n):]
    elif kind == "appended" and words.TEXTS and t.chance(0.4):
        b += words.text(t, 1).encode("utf-8", "replace")
    elif kind == "appended":
        b += bytes(t.below(256) for _ in range(1 + t.below(4)))
    elif kind == "zeroed":
        i = t.below(n)
        for j in range(i, min(n, i + 1 + t.below(6))):
            b[j] = t.pick([0, 0x20, 0xFF, 0x40])
    elif kind == "digit":
        # plausible text garbage: the kind that slips through lenient parsers
        i = t.below(n)
        c = (words.text(t, 0.3) or " ")[0]
        c = c if c.isascii() and c != " " else t.pick(["0", "9", " ", "+", "-", "_", "F", "f", "\n", "\t", "x", "."])
        b[i] = c.encode(t.pick(["ascii", "cp500"]))[0]
        if t.chance(0.3) and i + 1 < n:
            b[i + 1] = b[i]
    elif kind == "aimed" and layout:
        # layout: [(offset, size)] of bitmaps and length indicators
        off, size = layout[t.below(len(layout))][:2]
        if size:
            how = t.below(3)
            for _ in range(1 + t.below(2)):
                i = min(n - 1, off + t.below(size))
                if how == 0:
                    b[i] ^= 1 << t.below(8)
                elif how == 1:
                    b[i] = t.below(256)
                else:
                    e = t.pick(["ascii", "cp500"])
                    b[i] = t.pick([" ", "+", "-", "_", "f", "F", "0", "9", "1", "5", "\t", "\x0b"]).encode(e)[0]
    elif kind == "copied":
        # one field's bytes in place of another's that takes as many
        pairs = [(x, y) for x in layout for y in layout
                 if x is not y and x[1] == y[1] and x[3] == y[3] and x[3] and x[2].isdigit() and y[2].isdigit()]
        if pairs:
            x, y = t.pick(pairs)
            b[y[0]:y[0] + y[1] + y[3]] = b[x[0]:x[0] + x[1] + x[3]]
    elif kind == "announced":
        announce(t, b, layout, spec, run)
    elif kind == "spliced" and others:
        o = others[t.below(len(others))]
        i = t.below(n + 1)
        b = b[:i] + bytearray(o[min(i, len(o)):])
    else:
        kind = "noise"
        k = t.below(60)
        b = bytearray(t.below(256) for _ in range(k)) if not n or t.chance(0.5) else \
            b[:min(n, 12)] + bytearray(t.below(256) for _ in range(k))
    run.fault("corrupt_" + kind)
    return bytes(b)


def announce(t, b, layout, spec, run=None):
    """A length indicator that lies, alone or with data to match; or a fixed field of another size."""
    off, size, k, dsize = layout[t.below(len(layout))]
    fs = spec.get(k)
    if fs is None or k in ("p", "1", "t"):
        if size:
            b[min(off, len(b) - 1)] ^= 1 << t.below(8)
        return
    nib = fs.get("len_count") == "nibbles"
    old = 2 * dsize if nib else dsize
    m = fs["max_len"]
    how = t.below(10 if size else 9)
    n = (old + 1, old - 1, m, m + 1, m + 2, m + 1 + (m & 1), 0, t.below(m + 2), t.below(300), 0)[how]
    if how == 9:
        # what is there, if counted in too few digits or bytes
        n = old + t.pick([256, 65536, 1 << 24, 10, 100, 1000, 10000, 128, 32768]) * (1 + t.below(2))
    if how < 2 and nib and t.chance(0.5):
        n -= 1
    n = words.number(t, n)
    n = max(0, min(n, 5000)) if how != 9 else n
    if size:
        if fs["len_enc"] == "b":
            ind = n.to_bytes(4, "big")[-size:].rjust(size, b"\0")
        elif fs["len_enc"] == "bcd":
            ind = bytes.fromhex(("%0*d" % (2 * size, n))[-2 * size:])
        else:
            try:
                ind = ("%0*d" % (size, n))[-size:].encode(fs["len_enc"])[:size]
            except Exception:
                ind = b"0" * size
        b[off:off + size] = ind
    if how != 9 and t.chance(0.7) or not size:
        # data to match, cut or grown at its end; the grown part repeats what is there
        want = (n + 1) // 2 if nib else n
        at = off + size
        data = bytes(b[at:at + dsize])
        grown = (data + (data or b"\x11") * (1 + want // max(1, dsize)))[:want]
        b[at:at + dsize] = grown
        kind = "length_and_data_changed"
    else:
        kind = "length_lies"
    if run is not None:
        run.fault(kind)


def layout_of(enc, spec):
    """(offset, size, element, data size) of bitmaps and of fields with their length indicators."""
    out, off = [], 0
    for k, (a, b) in enc.items():
        if k in ("p", "1"):
            out.append((off, len(b), k, 0))
        elif k != "t" and (a or b):
            out.append((off, len(a), k, len(b)))
        off += len(a) + len(b)
    return out
