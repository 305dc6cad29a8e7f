"""C08: concurrent callers never affect each other.

System: 2-4 threads (now and then up to 9) of one process, each encoding, decoding and printing its own messages, sharing one
specification (or working under two), the received bytes and sometimes the output stream.  Real threads, run one at a time;
the tape decides who runs at bytecodes or lines of library code and at callbacks from it, and now and then
strikes one of the calls with an exception.  Each thread's other outcomes must be those of running alone in a fresh process.
"""
import _thread
import copy

from .. import gen, lib, seams
from ..core import call, freeze, short, diff
from ..sched import Scheduler
from . import c11
from .c09 import KINDS
from .common import boot, shape, describe_spec


class Shared:
    """Output stream used by several threads: remembers who wrote what."""

    def __init__(self):
        self.by = {}
        self.point = None

    def write(self, s):
        self.by.setdefault(_thread.get_ident(), []).append(s)
        if self.point is not None:
            self.point()


def run(run):
    t = run.t
    proc = boot(run)
    nthreads = 2 + t.weighted([(24, 0), (12, 1), (4, 2), (1, 4), (1, 7)])
    spec = gen.gen_spec(t, shipped=proc.specs, nfields=t.pick([2, 4, 8]), desc=t.chance(0.3), full=0.08)
    registry = None
    hooks = {"point": None}

    def point():
        if hooks["point"] is not None:
            hooks["point"]()

    if t.chance(0.2):
        # text codecs under simulator control: every conversion is a scheduling point
        registry = seams.Registry(lambda op, name: point())
        for k, fs in spec.items():
            if fs["data_enc"] in gen.SINGLE and t.chance(0.6):
                fs["data_enc"] = registry.name(fs["data_enc"])
            if fs["len_type"] and fs["len_enc"] in gen.SINGLE and t.chance(0.6):
                fs["len_enc"] = registry.name(fs["len_enc"])
        run.probe("codec_points")
    try:
        scenario(run, proc, spec, nthreads, hooks, point)
    finally:
        if registry is not None:
            registry.close()


def scenario(run, proc, spec, nthreads, hooks, point):
    t = run.t
    specs = [spec]
    if t.chance(0.3):
        # some threads talk to another network: the same fields, described differently
        specs.append(c11.sibling(t, spec) if t.chance(0.5) else gen.sibling(t, spec))
        run.probe("two_specifications")
    plains = [real_names(x) for x in specs]
    plain = plains[0]
    broken = None
    if t.chance(0.08):
        # one of the networks names an encoding this machine does not have
        broken = t.below(len(specs))
    docs = [gen.gen_doc(t, plain, p=t.pick([0.9, 0.6]), limit=40, most=1200) for _ in range(nthreads + 1)]
    docs += [gen.gen_doc(t, x, p=0.7, limit=40, most=1200) for x in plains[1:] for _ in range(2)]
    wires = []
    for d in docs:
        for x in specs:
            out = call(proc.encode, dict(d), x)
            if out.ok:
                wires.append(bytes(out.value[0]))
                if t.chance(0.25) and len(wires[-1]) > 1:
                    wires.append(wires[-1][:-1])
    if broken is not None:
        specs[broken] = copy.deepcopy(specs[broken])
        k = t.pick([k for k in specs[broken] if k not in ("h", "t", "p")] or ["t"])
        specs[broken][k]["data_enc"] = "no-such-encoding"
        run.fault("encoding_missing")
    shared_specs = specs
    if t.chance(0.2):
        shared_specs = [seams.wrap_spec(x, point) for x in specs]
        run.probe("mapping_points")
    shared_stream = Shared() if t.chance(0.5) else None
    if t.chance(0.6) and wires:
        # the threads meet a process that has not been warmed up
        proc = boot(run)
    jobs = []
    traced = []
    for i in range(nthreads):
        job = []
        for _ in range(1 + t.below(3)):
            op = t.weighted([(4, "encode"), (4, "decode"), (3, "pp")])
            which = t.below(len(specs))
            if op == "decode" and not wires:
                op = "encode"
            if op == "decode":
                w = t.pick(wires)
                job.append((op, which, bytearray(w) if t.chance(0.2) else w))
            elif op == "encode":
                d = dict(t.pick(docs))
                if t.chance(0.25) and d:
                    k = t.pick(list(d))
                    if k in plain:
                        d[k] = gen.gen_bad_value(t, plain[k])
                    else:
                        d.pop(k)
                job.append((op, which, d))
            elif traced and t.chance(0.35):
                # a document another thread is tracing as well
                which, d = t.pick(traced)
                job.append((op, which, d, t.pick([0, 10, 30]), t.pick([20, 80, 40, 60, 7])))
            else:
                d = dict(t.pick(docs))
                if t.chance(0.5):
                    out = call(proc.encode, dict(d), specs[which])
                    if out.ok:
                        d = out.value[1]
                traced.append((which, d))
                job.append((op, which, d, t.pick([0, 10, 30]), t.pick([20, 80, 40, 60, 7])))
        jobs.append(job)
        run.mark([j[0] for j in job])
    # what each thread does alone, in a process of its own
    want = []
    full = {}
    if shared_stream is None and t.chance(0.25):
        # the disk of some of the threads is full
        full = {i: t.below(20) for i in range(nthreads) if t.chance(0.4)}
        run.fault("stream_full", len(full))
    for i, job in enumerate(jobs):
        alone = lib.Process(proc.optimize)
        stream = seams.Stream(fail_at=full.get(i), exc=OSError("disk full"))
        want.append((perform(alone, job, specs, stream), stream.writes))
    proc.activate()
    frozen = freeze(specs)
    results = [None] * nthreads
    streams = [shared_stream or seams.Stream(hook=lambda n: point(), fail_at=full.get(i), exc=OSError("disk full"))
               for i in range(nthreads)]
    idents = {}

    struck = []

    def body(i):
        def f():
            idents[i] = _thread.get_ident()
            results[i] = perform(proc, jobs[i], shared_specs, streams[i], lambda k: begin(i, k))
        return f

    def begin(i, k):
        if (i, progress[i]) in struck:
            s.rearm()
        progress[i] = k

    progress = [0] * nthreads
    opcodes = t.chance(0.6)
    gap = t.weighted([(1, (0, 0)), (2, (0, 4)), (6, (0, 40)), (6, (0, 300)), (4, (0, 2500)), (1, (100, 12000))])
    if not opcodes:
        gap = (gap[0] // 6, gap[1] // 6)
    s = Scheduler(run, [body(i) for i in range(nthreads)], opcodes, gap)
    if not full and not opcodes and t.chance(0.6):
        # one of the calls is cut short by an exception, and only that one
        name, make = t.pick(KINDS)

        def action():
            victim = s.current.idx
            struck.append((victim, progress[victim]))
            run.fault("strike_" + name)
            raise make()

        if t.chance(0.5):
            s.strike = [t.below(nthreads), t.below(t.pick([40, 400])), action]
        else:
            s.strike = [None, t.below(4), action]
    hooks["point"] = s.point
    if shared_stream is not None:
        shared_stream.point = s.point
    try:
        s.run()
    finally:
        hooks["point"] = None
        run.steps += s.points
        run.ev("schedule", s.schedule[:60], len(s.schedule), s.points)
    run.evals += sum(len(j) for j in jobs)
    if s.switches:
        run.fault("preempted", s.switches)
    run.mark(s.schedule[:50], s.points)
    for i in range(nthreads):
        got = results[i]
        run.ev("thread", i, jobs[i], got)
        hit = [k for j, k in struck if j == i]
        if hit and got is not None:
            # the struck call itself is C09's business
            got = [w if k in hit else g for k, (g, w) in enumerate(zip(got, want[i][0]))]
            if jobs[i][hit[0]][0] == "pp":
                continue
        run.check(got == want[i][0], "affected", lambda: "thread %d: %s" % (i, why(got, want[i][0], jobs[i])))
        written = shared_stream.by.get(idents[i], []) if shared_stream is not None else streams[i].writes
        run.check(written == want[i][1], "affected", lambda: "thread %d wrote %s, alone it writes %s" % (
            i, short(written), short(want[i][1])))
    run.check(freeze(specs) == frozen, "spec-changed", lambda: "shared specification: %s" % diff(freeze(specs), frozen))


def perform(proc, job, specs, stream, begin=None):
    """-> one outcome per operation"""
    out = []
    for k, op in enumerate(job):
        if begin is not None:
            begin(k)
        spec = specs[op[1]]
        if op[0] == "encode":
            d = dict(op[2])
            r = call(proc.encode, d, spec)
            out.append((r.frozen(), freeze(d)))
        elif op[0] == "decode":
            r = call(proc.decode, op[2], spec)
            d = r.value[0] if r.ok else None
            out.append((r.frozen(), call(proc.encode, d, spec).frozen() if r.ok else None))
        else:
            r = call(proc.pp, op[2], spec, op[3], stream, op[4])
            out.append(r.frozen())
    return out


def why(got, want, job):
    if got is None:
        return "did not finish"
    for i, (g, w) in enumerate(zip(got, want)):
        if g != w:
            return "job %s, outcome %d: got %s, alone %s" % (short(job), i, short(g, 400), short(w, 400))
    return "%d outcomes, alone %d" % (len(got), len(want))


def real_names(spec):
    """The same specification with the simulated codecs' base names, for the generator."""
    out = {}
    for k, fs in spec.items():
        fs = dict(fs)
        for a in ("data_enc", "len_enc"):
            if fs[a].startswith("sim_"):
                fs[a] = seams.base_name(fs[a])
        out[k] = fs
    return out
