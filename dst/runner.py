"""Batches of simulated runs: workers, watchdog, minimiser, fresh-process replay, evidence."""
import hashlib
import importlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
OUT = os.environ.get("DST_OUT", VERIF)     # where evidence/ and replays/ go
BUCKETS = 8
WALL_LIMIT = 60         # seconds a run may be blocked without using the processor
MEMORY_LIMIT = 3 << 30  # address space of one worker, bytes
CPU_LIMIT = 25          # CPU seconds one simulated run may take (normal: milliseconds)


def hashseed(seed, prop, bucket):
    d = hashlib.sha256(("%s/%s/%s" % (seed, prop, bucket)).encode()).digest()
    return int.from_bytes(d[:4], "big")


def load(prop):
    return importlib.import_module("dst.props." + prop.lower())


# ------------------------------------------------------------------ one run
def _library_on_stack():
    from . import lib
    for fr in sys._current_frames().values():
        while fr is not None:
            if lib.in_library(fr.f_code.co_filename):
                return True
            fr = fr.f_back
    return False


def execute(mod, tape, tier, log=False, cpu=None):
    """-> (run, violation or None).  Harness errors propagate."""
    from . import core, lib
    limit = getattr(mod, "CPU_LIMIT", CPU_LIMIT)      # of a module whose runs are long lives
    cpu = cpu or limit
    lib.reset_environment(tape)
    run = core.Run(tape, tier, log)
    lib_hit = [False]
    stuck = [False]

    def alarm(signum, frame):
        lib_hit[0] = _library_on_stack()
        stuck[0] = signum == signal.SIGALRM
        raise core.Hang("watchdog")

    signal.signal(signal.SIGPROF, alarm)
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_PROF, cpu)
    signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT + 3 * (limit - CPU_LIMIT))
    try:
        mod.run(run)
        v = None
    except core.Violation as e:
        v = (e.kind, e.msg)
    except core.StepBudget as e:
        v = ("no-termination", "a call does not end: %s" % e)
    except lib.SimDeadlock as e:
        v = ("deadlock", "a call never returns: %s" % e)
    except core.Hang:
        if not lib_hit[0]:
            raise RuntimeError("simulated run exceeded its time limit outside the library")
        if stuck[0]:
            v = ("blocked", "a call was blocked for %s seconds without using the processor" % WALL_LIMIT)
            return run, v
        v = ("no-termination", "a call was still running after %s CPU seconds" % cpu)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.settrace(None)
    return run, v


RESULT = []                # where a child answers its parent: not the standard output of the library


def setup_interpreter():
    RESULT.append(os.dup(1))
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.close(null)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    sys.path.insert(0, VERIF)
    from . import lib
    lib.install()
    # The first opcode trace of an interpreter delivers no events: get it over with.
    def opcodes(frame, event, arg):
        frame.f_trace_opcodes = True
        return opcodes
    sys.settrace(opcodes)
    lib.in_library("")
    sys.settrace(None)
    import gc
    gc.freeze()


def answer(doc):
    """Report to the parent and end this process."""
    with os.fdopen(RESULT[0], "w") as f:
        f.write(json.dumps(doc))
    os._exit(0)


# ------------------------------------------------------------------ worker
def worker(cfg):
    setup_interpreter()
    from . import lib, tape as tapem
    mod = load(cfg["prop"])
    tier, seed, bucket, total = cfg["tier"], cfg["seed"], cfg["bucket"], cfg["total"]
    out = {"runs": 0, "nontrivial": 0, "evals": 0, "sim": 0.0, "faults": {}, "probes": {},
           "sigs": [], "violation": None, "error": None, "steps": 0, "capped": False,
           "fingerprint": "", "samples": []}
    sigs = set()
    fp = hashlib.blake2b(digest_size=8)
    t0 = lib.real_monotonic()
    idx = bucket
    checked = 0
    at = os.open(cfg["flag"] + str(bucket), os.O_WRONLY | os.O_CREAT, 0o600)
    while idx < total:
        if checked % 16 == 0:
            if lib.real_monotonic() - t0 > cfg["cap"]:
                out["capped"] = True
                break
            try:
                with open(cfg["flag"]) as f:
                    if idx > min(int(x) for x in f.read().split()):
                        break
            except (OSError, ValueError):
                pass
        checked += 1
        os.pwrite(at, b"%12d" % idx, 0)
        tp = tapem.Tape(seed="%s:%s:%d" % (seed, cfg["prop"], idx))
        try:
            run, v = execute(mod, tp, tier)
        except Exception:
            out["error"] = "run %d: %s" % (idx, traceback.format_exc())
            break
        out["runs"] += 1
        out["evals"] += run.evals
        out["sim"] += run.sim
        out["steps"] += run.steps
        for k, n in run.faults.items():
            out["faults"][k] = out["faults"].get(k, 0) + n
        for k, n in run.probes.items():
            out["probes"][k] = out["probes"].get(k, 0) + n
        if run.nontrivial:
            out["nontrivial"] += 1
            sigs.add(hashlib.blake2b(repr(run.sig).encode("utf-8", "backslashreplace"),
                                     digest_size=8).hexdigest())
        fp.update(b"%d:" % idx + run.h.digest())
        if v is not None:
            out["violation"] = {"index": idx, "kind": v[0], "msg": v[1], "tape": tp.rec}
            with open(cfg["flag"], "a") as f:
                f.write("%d\n" % idx)
            break
        idx += BUCKETS
    out["sigs"] = sorted(sigs)
    out["fingerprint"] = fp.hexdigest()
    out["wall"] = lib.real_monotonic() - t0
    answer(out)


# ------------------------------------------------------------------ minimise / replay
def shrink(mod, values, kind, tier, seconds):
    """Smallest tape found that still gives a violation of this kind."""
    from . import lib, tape as tapem
    t0 = lib.real_monotonic()
    tries = [0]

    def attempt(vals):
        if lib.real_monotonic() - t0 > seconds:
            return None
        tries[0] += 1
        tp = tapem.Tape(values=vals)
        try:
            run, v = execute(mod, tp, tier, cpu=5)
        except Exception:
            return None
        if v is not None and v[0] == kind:
            return tp.rec
        return None

    best = attempt(values)
    if best is None:
        return values, tries[0]

    def better(a, b):
        return (len(a), sum(a), a) < (len(b), sum(b), b)

    def strip(v):
        v = list(v)
        while v and v[-1] == 0:
            v.pop()
        return v

    improved = True
    while improved and lib.real_monotonic() - t0 < seconds:
        improved = False
        for size in (256, 128, 64, 32, 16, 8, 5, 4, 3, 2, 1):
            i = len(best) - size
            while i >= 0 and lib.real_monotonic() - t0 < seconds:
                for cand in (best[:i] + best[i + size:],
                             best[:i] + [0] * size + best[i + size:]):
                    if strip(cand) == strip(best):
                        continue
                    r = attempt(cand)
                    if r is not None and better(strip(r), strip(best)):
                        best = r
                        improved = True
                        break
                i = min(i - max(1, size // 2), len(best) - size)
        for i in range(len(best)):
            if lib.real_monotonic() - t0 > seconds:
                break
            if i >= len(best):
                break
            for w in (0, 1, best[i] // 2, best[i] - 1):
                if i < len(best) and 0 <= w < best[i]:
                    r = attempt(best[:i] + [w] + best[i + 1:])
                    if r is not None and better(strip(r), strip(best)):
                        best = r
                        improved = True
                        break
    return strip(best), tries[0]


def shrink_main(cfg):
    setup_interpreter()
    mod = load(cfg["prop"])
    vals, tries = cfg["tape"], 0
    if cfg["kind"] not in ("no-termination", "blocked"):
        vals, tries = shrink(mod, cfg["tape"], cfg["kind"], cfg["tier"], cfg["seconds"])
    answer({"tape": vals, "tries": tries})


class Spill(list):
    """The choices of a run, kept outside a process that may not live to report them."""

    def __init__(self, path):
        self.fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)

    def append(self, v):
        list.append(self, v)
        os.write(self.fd, b"%d\n" % v)


def replay_main(cfg):
    """Execute a tape with the event log on."""
    setup_interpreter()
    from . import tape as tapem, words
    mod = load(cfg["prop"])
    if "dictionary" in cfg:
        words.use(*cfg["dictionary"])
    if "tape" in cfg:
        tp = tapem.Tape(values=cfg["tape"])
    else:
        tp = tapem.Tape(seed="%s:%s:%d" % (cfg["seed"], cfg["prop"], cfg["index"]))
    if "spill" in cfg:
        tp.rec = Spill(cfg["spill"])
    run, v = execute(mod, tp, cfg["tier"], log=True)
    answer({"violation": v, "events": run.events, "hash": run.h.hexdigest(),
            "faults": run.faults, "tape": list(tp.rec)})


MODES = {"worker": worker, "shrink": shrink_main, "replay": replay_main}


def child(mode, cfg, hseed):
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str(hseed)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env.pop("PYTHONPATH", None)
    p = subprocess.Popen([sys.executable, "-X", "utf8", os.path.join(VERIF, "check.py"), "--child", mode],
                         stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=env, cwd="/")
    p.stdin.write(json.dumps(cfg).encode())
    p.stdin.close()
    p.stdin = None
    return p


def collect(p, timeout):
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, "timed out"
    try:
        return json.loads(out), err.decode("utf-8", "replace")
    except ValueError:
        return None, "no result (exit %s): %s" % (p.returncode, err.decode("utf-8", "replace")[-3000:])


# ------------------------------------------------------------------ check
def check(prop, tier, seed, runs=None, quiet=False):
    t0 = time.time()
    sys.path.insert(0, VERIF)
    from . import table
    meta = table.TABLE[prop]
    total = runs if runs is not None else meta[tier]
    cap = 240 if tier == "quick" else 700
    flagdir = tempfile.mkdtemp(prefix="dst-")
    flag = os.path.join(flagdir, "violations")
    print("property=%s tier=%s VERIF_SEED=%s runs=%d" % (prop, tier, seed, total), flush=True)
    procs = []
    for b in range(BUCKETS):
        cfg = {"prop": prop, "tier": tier, "seed": seed, "bucket": b, "total": total,
               "cap": cap, "flag": flag}
        procs.append(child("worker", cfg, hashseed(seed, prop, b)))
    # every child writes at most a few hundred kB at its end; read them in parallel
    import threading
    results = [None] * BUCKETS

    def get(i):
        results[i] = collect(procs[i], cap + 120)

    ths = [threading.Thread(target=get, args=(i,)) for i in range(BUCKETS)]
    for th in ths:
        th.start()
    for th in ths:
        th.join()
    dead = None              # a run that no worker lives to report
    for b, (res, err) in enumerate(results):
        try:
            with open(flag + str(b)) as f:
                i = int(f.read())
        except (OSError, ValueError):
            continue
        if res is None and (dead is None or i < dead[0]):
            dead = (i, b)

    errors, viol = [], None
    agg = {"runs": 0, "nontrivial": 0, "evals": 0, "sim": 0.0, "steps": 0}
    faults, probes, sigs = {}, {}, set()
    fps = []
    capped = False
    for b, (res, err) in enumerate(results):
        if res is None:
            errors.append("worker %d: %s" % (b, err))
            continue
        if res["error"]:
            errors.append(res["error"])
        for k in agg:
            agg[k] += res[k]
        for k, n in res["faults"].items():
            faults[k] = faults.get(k, 0) + n
        for k, n in res["probes"].items():
            probes[k] = probes.get(k, 0) + n
        sigs.update(res["sigs"])
        capped = capped or res["capped"]
        fps.append(res["fingerprint"])
        v = res["violation"]
        if v is not None and (viol is None or v["index"] < viol["index"]):
            viol = dict(v, bucket=b)
    if dead is not None and (viol is None or dead[0] < viol["index"]):
        found = autopsy(prop, tier, seed, dead, os.path.join(flagdir, "tape"))
        if found is not None:
            viol = found
    shutil.rmtree(flagdir, ignore_errors=True)

    code = 0
    replay_path = None
    if viol is not None and viol["kind"] == "process-died":
        replay_path = report(prop, tier, seed, viol, viol["small"], viol["tries"], viol["rep"], True)
        code = 1
    elif viol is not None:
        hs = hashseed(seed, prop, viol["bucket"])
        res, err = collect(child("shrink", {"prop": prop, "tier": tier, "tape": viol["tape"],
                                            "kind": viol["kind"], "seconds": 25}, hs), 120)
        small = res["tape"] if res else viol["tape"]
        tries = res["tries"] if res else 0
        rep, chosen = None, None
        for cand in (small, viol["tape"]):
            rep, err = collect(child("replay", {"prop": prop, "tier": tier, "tape": cand}, hs), 90)
            if rep and rep["violation"]:
                chosen = cand
                break
        reproduced = False
        if chosen is not None:
            rep2, err = collect(child("replay", {"prop": prop, "tier": tier, "tape": chosen}, hs), 90)
            reproduced = bool(rep2 and rep2["violation"] and rep2["hash"] == rep["hash"]
                              and rep2["violation"] == rep["violation"])
        replay_path = report(prop, tier, seed, viol, chosen, tries, rep, reproduced)
        code = 1
    elif errors:
        for e in errors:
            print("ERROR " + e, file=sys.stderr)
        code = 2
    elif capped and agg["runs"] < meta["quick"] // 20:
        print("ERROR too few runs within the time cap", file=sys.stderr)
        code = 2
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg["evals"],
            "distinct_nontrivial": len(sigs),
            "rule": meta["rule"],
            "samples": samples(prop, tier, seed, meta) if code != 2 else [],
            "simulated_runs": agg["runs"],
            "nontrivial_runs": agg["nontrivial"],
            "seeds": agg["runs"],
            "runs_per_hour": int(agg["runs"] / max(wall, 1e-3) * 3600),
            "simulated_seconds": round(agg["sim"], 3),
            "library_steps_traced": agg["steps"],
            "faults_injected": dict(sorted(faults.items())),
            "rare_conditions_hit": dict(sorted(probes.items())),
            "distinct_measure": meta["measure"],
            "hash_seeds": [hashseed(seed, prop, b) for b in range(BUCKETS)],
            "event_log_fingerprints": fps,
            "stopped_by_time_cap": capped,
            "real_components": meta["real"],
            "simulated_components": meta["stub"],
            "fault_free_and_faulty_runs": meta.get("split", "chosen per run by the tape"),
        },
        "assumptions": meta["assumptions"],
        "wall_s": round(wall, 2),
        "violations": 1 if viol is not None else 0,
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if code == 0:
        print("OK property=%s runs=%d evaluations=%d distinct=%d faults=%d wall=%.1fs" %
              (prop, agg["runs"], agg["evals"], len(sigs), sum(faults.values()), wall))
    return code


def died(cfg, hs, timeout=90):
    """How the process executing one run ended, if it did not live to report."""
    rep, err = collect(child("replay", cfg, hs), timeout)
    return err.strip()[-300:] if rep is None else None


def autopsy(prop, tier, seed, dead, spill):
    """A worker died in a run: does that run, made alone, end its process again?"""
    index, bucket = dead
    hs = hashseed(seed, prop, bucket)
    how = died({"prop": prop, "tier": tier, "seed": seed, "index": index, "spill": spill}, hs)
    if how is None:
        return None
    with open(spill) as f:
        tape = whole = [int(x) for x in f.read().split()]
    end, tries = time.time() + 40, [0]

    def attempt(vals):
        if time.time() > end:
            return None
        tries[0] += 1
        return vals if died({"prop": prop, "tier": tier, "tape": vals}, hs, 60) is not None else None

    again = attempt(tape)
    if again is None:
        return None
    for size in (512, 128, 32, 8, 2, 1):
        i = len(tape) - size
        while i >= 0 and time.time() < end:
            tape = attempt(tape[:i] + tape[i + size:]) or (
                attempt(tape[:i] + [0] * size + tape[i + size:]) if any(tape[i:i + size]) else None) or tape
            i = min(i, len(tape)) - size
    died({"prop": prop, "tier": tier, "tape": tape, "spill": spill}, hs)
    msg = "the process executing this run ends without an answer: %s" % how
    return {"index": index, "bucket": bucket, "kind": "process-died", "msg": msg, "tape": whole, "small": tape, "tries": tries[0],
            "rep": {"violation": ["process-died", msg], "hash": None, "events": [], "faults": {}}}


def dictionary():
    from . import words
    return [words.TEXTS, words.NUMBERS]


def report(prop, tier, seed, viol, chosen, tries, rep, reproduced):
    """Write the replay file and say what was found."""
    hs = hashseed(seed, prop, viol["bucket"])
    doc = {"property": prop, "seed": seed, "tier": tier, "run": viol["index"],
           "hashseed": hs, "kind": viol["kind"],
           "violation": (rep["violation"] if rep and rep["violation"] else [viol["kind"], viol["msg"]]),
           "reproduced_in_two_fresh_processes": reproduced,
           "tape": chosen if chosen is not None else viol["tape"],
           "dictionary": dictionary(),
           "original_tape_length": len(viol["tape"]), "minimiser_executions": tries,
           "event_hash": rep["hash"] if rep else None,
           "trace": rep["events"] if rep else [], "faults": rep["faults"] if rep else {}}
    rdir = os.path.join(OUT, "replays")
    os.makedirs(rdir, exist_ok=True)
    replay_path = os.path.join(rdir, "%s-%s-%d.json" % (prop, seed, viol["index"]))
    with open(replay_path, "w") as f:
        json.dump(doc, f, indent=1)
    print("run %d (seed %s): %s: %s" % (viol["index"], seed, viol["kind"], doc["violation"][1]))
    for line in doc["trace"][-40:]:
        print("   " + line[:240])
    print("tape %d -> %d entries, reproduced in fresh processes: %s" %
          (len(viol["tape"]), len(doc["tape"]), reproduced))
    print("VIOLATION property=%s replay=%s" % (prop, replay_path), flush=True)
    return replay_path


def samples(prop, tier, seed, meta):
    """Two actual runs of this batch, written out (replayed with the log on)."""
    out = []
    for idx in (0, 5):
        b = idx % BUCKETS
        res, err = collect(child("sample", {"prop": prop, "tier": tier, "seed": seed, "index": idx},
                                 hashseed(seed, prop, b)), 60)
        if res:
            out.append({"run": idx, "faults": res["faults"], "trace": res["events"][:25]})
    return out


def sample_main(cfg):
    setup_interpreter()
    from . import tape as tapem
    mod = load(cfg["prop"])
    tp = tapem.Tape(seed="%s:%s:%d" % (cfg["seed"], cfg["prop"], cfg["index"]))
    try:
        run, v = execute(mod, tp, cfg["tier"], log=True)
        res = {"events": run.events, "faults": run.faults}
    except Exception:
        res = {"events": [], "faults": {}}
    answer(res)


MODES["sample"] = sample_main


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    rep, err = collect(child("replay", {"prop": doc["property"], "tier": doc["tier"],
                                        "tape": doc["tape"], "dictionary": doc.get("dictionary", [[], []])}, doc["hashseed"]), 120)
    if rep is None and doc["kind"] == "process-died":
        print("process-died: %s" % err)
        print("VIOLATION property=%s replay=%s" % (doc["property"], path))
        return 1
    if rep is None:
        print("ERROR " + err, file=sys.stderr)
        return 2
    for line in rep["events"]:
        print("   " + line)
    print("event hash %s (recorded %s)" % (rep["hash"], doc["event_hash"]))
    if rep["violation"]:
        print("%s: %s" % tuple(rep["violation"]))
        print("VIOLATION property=%s replay=%s" % (doc["property"], path))
        return 1
    print("the violation does not occur on this tree")
    return 0
