"""C01: messages survive any exchange between parties unchanged.

System: terminals - translating switches (with a journal) - a host, every hop under its own
specification, over links that lose, duplicate, delay, reorder, cut and partition; nodes crash and
restart as new processes.  Beside the transactions, one-way advices under arbitrary specifications.
"""
import copy
import json

from .. import gen, lib, world
from ..core import call, enc_parts, short, upper_doc, diff
from .common import boot, lived, shape, describe_spec

TEXTS = ["ascii", "cp500", "latin-1", "utf-8", "cp037", "utf-16-le"]


# ------------------------------------------------------------------ per-link specifications
def logical_fields(t):
    """{number: (kind, fixed length or None, longest, even)} shared by every link of the network."""
    out = {}
    for n in gen.gen_numbers(t, 2 + t.below(7)):
        if n in (11, 39):
            continue
        kind = t.weighted([(3, "digits"), (3, "ans"), (3, "hex"), (2, "own")])
        top = t.weighted([(6, 1 + t.below(24)), (2, 99), (1, 120 + t.below(200))])
        even = kind == "hex" or t.chance(0.5)
        fixed = t.chance(0.35)
        if even and top % 2:
            top += 1
        out[n] = (kind, top if fixed else None, top, even)
    return out


def physical(t, kind, fixed, top, even):
    """A field specification able to carry that logical field."""
    binary = kind == "hex" or (kind == "digits" and t.chance(0.5))
    fs = {"data_enc": "b", "len_enc": "ascii", "len_type": 0, "max_len": top}
    if binary:
        if even and t.chance(0.5):
            fs["max_len"] = top // 2
            if t.chance(0.3):
                fs["len_count"] = "bytes"
        else:
            fs["len_count"] = "nibbles"
            if not even or t.chance(0.4):
                pad = t.pick(["0", "F", "f", "a", "9"])
                fs[t.pick(["left_pad", "right_pad"])] = pad
                if t.chance(0.2):
                    fs.setdefault("right_pad", "0")
    else:
        enc = t.pick(TEXTS)
        width = 2 if enc == "utf-16-le" else 1
        fs["data_enc"] = enc
        fs["max_len"] = top * width
        if t.chance(0.3):
            fs["len_count"] = "nibbles"
            fs["max_len"] *= 2
    if fixed is None:
        fs["max_len"] += t.below(3) * (1 + t.below(20))
        fs["len_enc"] = t.pick(["ascii", "b", "bcd", "cp500"])
        need = 1
        while gen.capacity(dict(fs, len_type=need)) < fs["max_len"]:
            need += 1
        fs["len_type"] = need + t.below(2)
    return fs


def link_spec(t, fields, own):
    spec = gen.gen_spec(t, nfields=0)
    spec["11"] = physical(t, "digits", 6, 6, True)
    spec["39"] = physical(t, "ans", 2, 2, True)
    for n, (kind, fixed, top, even) in fields.items():
        spec[str(n)] = dict(own[n]) if kind == "own" else physical(t, kind, fixed, top, even)
    for k in spec:
        spec[k].setdefault("desc", "F" + k)
    return spec


def logical_value(t, desc, own):
    kind, fixed, top, even = desc
    if kind == "own":
        return gen.gen_value(t, own, limit=300)
    n = fixed if fixed is not None else t.below(top + 1)
    if even and n % 2:
        n -= 1
    pool = {"digits": gen.DIGITS, "ans": gen.ANS, "hex": gen.HEXM}[kind]
    return gen.slice_of(t, pool, n) if t.chance(0.8) else "0" * n


# ------------------------------------------------------------------ judging
class Wire:
    """What every message ever sent means: bytes under a specification -> the sender's documents."""

    def __init__(self, run):
        self.run = run
        self.known = {}

    def encode(self, proc, doc, spec, link):
        """Encode at the sender; None if refused."""
        want = upper_or_none(doc, spec)
        out = call(proc.encode, doc, spec)
        self.run.evals += 1
        if not out.ok:
            return None
        s, enc = out.value
        s = bytes(s)
        parts = enc_parts(enc)
        expect = (want, {k: doc.get(k) for k in ("p", "1") if k in doc}, parts)
        if want is None or parts is None:
            self.run.check(False, "unreadable-message",
                           "encode accepted %s, which has no decoded form under its specification" % short(doc))
        old = self.known.setdefault((link, s), expect)
        if old != expect:
            self.run.check(False, "ambiguous-message", "%s encodes two documents: %s and %s" % (
                short(s), short(old[0]), short(expect[0])))
        return s

    def decode(self, proc, s, spec, link, who):
        """Decode at a receiver of exactly the bytes some sender sent."""
        run = self.run
        want, maps, parts = self.known[(link, s)]
        out = call(proc.decode, bytearray(s) if run.t.chance(0.3) else s, spec)
        run.evals += 1
        run.ev("decode", who, link, s[:60], "ok" if out.ok else out)
        run.check(out.ok, "message-lost", lambda: "%s cannot decode %s sent as %s under %s: %r" % (
            who, short(s), short(want), short(describe_spec(spec, want), 900), out))
        dec, enc = out.value
        got = {k: v for k, v in dec.items() if k not in ("p", "1")}
        run.check(got == want, "message-changed", lambda: "%s reads %s; %s" % (
            who, short(s), diff(got, want)))
        run.check({k: dec[k] for k in ("p", "1") if k in dec} == maps, "message-changed",
                  lambda: "%s reads bitmaps %s, sender has %s" % (who, short(dec), maps))
        run.check(enc_parts(enc) == parts, "message-changed", lambda: "%s: encoded dictionary of %s; %s" % (
            who, short(s), diff(enc_parts(enc), parts)))
        if run.t.chance(0.5):
            again = call(proc.encode, dict(dec), spec)
            run.evals += 1
            run.check(again.ok and bytes(again.value[0]) == s, "not-reproduced",
                      lambda: "%s re-encodes %s as %r" % (who, short(s), again))
        return dec, enc


def upper_or_none(doc, spec):
    try:
        want = upper_doc(doc, spec)
    except Exception:
        return None
    if not all(isinstance(k, str) and type(v) is str for k, v in want.items()):
        return None
    return want


# ------------------------------------------------------------------ run
def run(run):
    if run.t.chance(0.45):
        advices(run)
    else:
        network(run)


def advices(run):
    """One-way messages of every shape, some of them doubtful, over one link."""
    t = run.t
    a, b = boot(run), boot(run)
    w = world.World(run)
    wire = Wire(run)
    spec = gen.gen_spec(t, shipped=a.specs, big=t.chance(0.05), nodesc=0.1)
    spec_b = json.loads(json.dumps(spec)) if t.chance(0.5) else spec
    link = world.Link(w, {"loss": 0.1, "dup": 0.1, "slow": 0.2, "latency": 0.01, "jitter": True,
                          "faults_on": lambda: True})

    def deliver(s):
        dec, enc = wire.decode(b.activate(), s, spec_b, "L", "receiver")
        if t.chance(0.3):
            # answered by editing the decoded request
            keys = [k for k in dec if k.isdecimal() and k not in ("1", "65")]
            for k in t.subset(keys, 0.2):
                del dec[k]
            for k in t.subset(gen.defined(spec)[:20], 0.1):
                v = gen.gen_value(t, spec[k], 200)
                if v is not None:
                    dec[k] = v
            dec["t"] = "0210"
            s2 = wire.encode(b, dec, spec_b, "L")
            if s2 is not None:
                run.probe("answered")
                wire.decode(a.activate(), s2, spec, "L", "sender")

    for i in range(2 + t.below(8)):
        doc = gen.gen_doc(t, spec, limit=None if t.chance(0.1) else 500)
        keys = [k for k in doc if k in spec and k not in ("p", "1", "65")]
        if keys and t.chance(0.35):
            k = t.pick(keys)
            doc[k] = gen.gen_bad_value(t, spec[k])
            run.probe("doubtful_document")
        s = wire.encode(a, doc, spec, "L")
        if s is None:
            run.probe("refused")
            continue
        run.nontrivial = True
        run.mark(shape(spec, doc))
        w.after(0.002 * i, link.send, deliver, s)
    w.go()


class Node:
    def __init__(self, net, name):
        self.net = net
        self.name = name
        self.up = True
        self.start()

    def start(self):
        self.proc = lived(self.net.run, lib.Process(self.net.t.weighted([(8, 0), (1, 1), (1, 2)])))

    def crash(self, downtime):
        self.up = False
        self.net.run.fault("crash_" + self.kind)
        self.net.run.ev("crash", self.name)
        self.net.w.after(downtime, self.restart)

    def restart(self):
        self.up = True
        self.start()
        self.net.run.ev("restart", self.name)
        self.recover()

    def recover(self):
        pass


class Net:
    def __init__(self, run):
        self.run = run
        self.t = t = run.t
        self.w = world.World(run)
        self.wire = Wire(run)
        self.fields = logical_fields(t)
        self.own = {n: dict(gen.gen_field(t), desc="own") for n in self.fields}
        self.hops = 1 + t.below(3)              # terminal -> 0..2 switches -> host
        self.specs = [link_spec(t, self.fields, self.own) for _ in range(self.hops)]
        self.texts = [json.dumps(s) for s in self.specs]
        self.faults_until = 20.0 if t.chance(0.85) else 0.0
        on = lambda: self.w.now < self.faults_until
        self.links = []
        for i in range(self.hops):
            cfg = {"loss": t.pick([0.0, 0.05, 0.25]), "dup": t.pick([0.0, 0.1, 0.3]),
                   "slow": t.pick([0.0, 0.1, 0.4]), "latency": 0.02, "jitter": t.chance(0.8), "faults_on": on}
            self.links.append(world.Link(self.w, cfg))
        self.tear = t.pick([0.0, 0.0, 0.1])
        self.on = on
        self.host = Host(self, "host")
        self.switches = [Switch(self, "switch%d" % i, i) for i in range(self.hops - 1)]
        self.terminal = Terminal(self, "terminal")

    def send(self, hop, forward, s):
        """Over link `hop`, towards the host or back."""
        if self.on() and self.tear and self.t.chance(self.tear):
            self.run.fault("torn_frame")
            self.links[hop].send(self.torn, (hop, forward, s[:self.t.below(len(s))]))
            return
        self.links[hop].send(self.arrive, (hop, forward, s))

    def target(self, hop, forward):
        if forward:
            return self.host if hop == self.hops - 1 else self.switches[hop]
        return self.terminal if hop == 0 else self.switches[hop - 1]

    def torn(self, m):
        node = self.target(m[0], m[1])
        if node.up:
            call(node.proc.activate().decode, m[2], node.spec(m[0]))   # discarded whatever it says

    def arrive(self, m):
        hop, forward, s = m
        node = self.target(hop, forward)
        if not node.up:
            self.run.fault("receiver_down")
            return
        node.proc.activate()
        node.receive(hop, forward, s)


class Terminal(Node):
    kind = "terminal"

    def __init__(self, net, name):
        Node.__init__(self, net, name)
        self.pending = {}
        self.answered = {}
        self.stan = 0

    def spec(self, hop):
        return self.net.specs[0]

    def request(self):
        t, net = self.net.t, self.net
        self.stan += 1
        stan = "%06d" % (self.stan * 37 % 1000000)
        doc = {"t": "%04d" % t.below(10000) if t.chance(0.1) else t.pick(["0200", "0100", "0420"])}
        if net.specs[0]["h"]["max_len"] > 0:
            v = gen.gen_value(t, net.specs[0]["h"])
            doc["h"] = gen.fallback(net.specs[0]["h"]) if v is None else v
        doc["11"] = stan
        for n in net.fields:
            if t.chance(0.7):
                v = logical_value(t, net.fields[n], net.own[n])
                if v is not None:
                    doc[str(n)] = v
        if t.chance(0.2):
            t.shuffle(keys := list(doc))
            doc = {k: doc[k] for k in keys}
        original = dict(doc)
        self.pending[stan] = (original, doc)
        net.run.mark(shape(net.specs[0], original), net.hops)
        self.transmit(stan)

    def transmit(self, stan):
        net = self.net
        if stan not in self.pending:
            return
        original, doc = self.pending[stan]
        s = net.wire.encode(self.proc.activate(), doc, net.specs[0], 0)
        if s is None:
            net.run.probe("refused")
            del self.pending[stan]
            return
        net.send(0, True, s)
        net.w.after(3.0 + 0.1 * net.t.below(10), self.retransmit, stan)

    def retransmit(self, stan):
        if stan in self.pending:
            self.net.run.probe("retransmitted")
            self.transmit(stan)

    def receive(self, hop, forward, s):
        net = self.net
        dec, enc = net.wire.decode(self.proc, s, net.specs[0], 0, self.name)
        stan = dec.get("11")
        if stan not in self.pending:
            net.run.probe("late_or_duplicate_answer")
            return
        original, _ = self.pending.pop(stan)
        self.answered[stan] = net.w.now
        want = {}
        for k, v in original.items():
            if k.isdecimal() and k not in net.dropped:
                n = int(k)
                binary = any(sp[k]["data_enc"] == "b" for sp in net.specs)
                want[k] = v.upper() if binary else v
        want["39"] = "00"
        got = {k: v for k, v in dec.items() if k.isdecimal() and k != "1"}
        net.run.check(got == want, "wrong-answer", lambda: "request %s answered with other fields: %s" % (
            stan, diff(got, want)))


class Switch(Node):
    kind = "switch"

    def __init__(self, net, name, index):
        self.index = index
        self.journal = []          # synced JSON lines: survive a crash
        Node.__init__(self, net, name)
        self.cfg = [json.loads(x) for x in net.texts] if net.t.chance(0.5) else net.specs

    def start(self):
        Node.start(self)
        self.cfg = [json.loads(x) for x in self.net.texts] if self.net.t.chance(0.5) else self.net.specs

    def spec(self, hop):
        return self.cfg[hop]

    def receive(self, hop, forward, s):
        net = self.net
        dec, enc = net.wire.decode(self.proc, s, self.cfg[hop], hop, self.name)
        out = hop + 1 if forward else hop - 1
        self.translate(dec, out)
        line = json.dumps([out, forward, dec]) if net.t.chance(0.5) else None
        if line is not None:
            self.journal.append(line)
        if line is not None and net.on() and net.t.chance(0.15):
            self.crash(0.5 + net.t.below(4))      # between storing and forwarding
            return
        self.forward(out, forward, dec)

    def translate(self, dec, out):
        """Edit the decoded document into one for the next link."""
        t, spec = self.net.t, self.cfg[out]
        if spec["h"]["max_len"] > 0:
            v = gen.gen_value(t, spec["h"])
            dec["h"] = gen.fallback(spec["h"]) if v is None else v
        elif t.chance(0.5):
            dec.pop("h", None)
        if t.chance(0.3):
            for k in ("p", "1"):
                dec.pop(k, None)

    def forward(self, out, forward, dec):
        net = self.net
        s = net.wire.encode(self.proc, dec, self.cfg[out], out)
        if s is None:
            net.run.probe("untranslatable")
            return
        net.send(out, forward, s)

    def recover(self):
        t = self.net.t
        for line in self.journal[-3:]:
            out, forward, dec = json.loads(line)
            self.net.run.probe("forwarded_after_restart")
            self.forward(out, forward, dec)


class Host(Node):
    kind = "host"

    def spec(self, hop):
        return self.net.specs[-1]

    def receive(self, hop, forward, s):
        net = self.net
        spec = net.specs[-1]
        dec, enc = net.wire.decode(self.proc, s, spec, hop, self.name)
        for k in net.dropped:
            dec.pop(k, None)
        dec["39"] = "00"
        if net.t.chance(0.5):
            dec["t"] = dec["t"][:2] + "1" + dec["t"][3:] if spec["t"]["data_enc"] == "b" else "0210"
        if net.t.chance(0.3):
            dec.pop("p", None)
        out = net.wire.encode(self.proc, dec, spec, hop)
        if out is None:
            net.run.probe("unanswerable")
            return
        net.send(hop, False, out)


def network(run):
    t = run.t
    net = Net(run)
    net.dropped = t.subset([str(n) for n in net.fields], 0.15)
    run.ev("specs", [describe_spec(s, s) for s in net.specs])
    run.nontrivial = True
    n = 2 + t.below(6)
    at = 0.0
    for _ in range(n):
        net.w.after(at, net.terminal.request)
        at += 0.1 * t.below(30)
    if net.faults_until:
        for _ in range(t.below(4)):
            when = 0.5 * t.below(36)
            how = t.below(3)
            if how == 0:
                net.w.after(when, net.host.crash, 0.5 + t.below(5))
            elif how == 1 and net.switches:
                net.w.after(when, t.pick(net.switches).crash, 0.5 + t.below(5))
            else:
                link = t.pick(net.links)
                net.w.after(when, partition, run, link, True)
                net.w.after(when + 1 + t.below(5), partition, run, link, False)
    net.w.go(until=60.0, max_events=20000)
    if net.terminal.answered:
        run.probe("transactions_completed", len(net.terminal.answered))
    # every request that was ever sent has its answer, well after faults stopped
    left = [s for s in net.terminal.pending]
    refused = run.probes.get("untranslatable", 0) + run.probes.get("unanswerable", 0)
    run.check(not left, "unanswered", lambda: "requests %s have no answer 40 simulated seconds after the last "
              "fault (%d refusals on the way)" % (left, refused))


def partition(run, link, cut):
    link.up = not cut
    run.ev("partition" if cut else "heal")
