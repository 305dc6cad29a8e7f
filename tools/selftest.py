"""Is one seed one execution?  python3 tools/selftest.py [--runs N] [--tier T] [PROPERTY...]

Every batch is executed twice, in different processes and (the second time) beside eight
busy processes that disturb real thread scheduling and timing.  The fingerprints of all event
logs, in run order, and all counters have to be the same.  Then the first runs of the batch are executed
once as the first thing an interpreter does and once late in its life: again the same."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KEYS = ("event_log_fingerprints", "evaluations", "distinct_nontrivial", "simulated_seconds",
        "library_steps_traced", "faults_injected", "rare_conditions_hit", "samples", "hash_seeds")


def batch(prop, extra):
    out = tempfile.mkdtemp(prefix="selftest-")
    try:
        r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), prop] + extra,
                           env=dict(os.environ, DST_OUT=out), capture_output=True, text=True)
        if r.returncode:
            return {"failed": r.stdout[-500:] + r.stderr[-500:]}
        with open(os.path.join(out, "evidence", prop + ".json")) as f:
            cov = json.load(f)["coverage"]
        return {k: cov[k] for k in KEYS}
    finally:
        shutil.rmtree(out)


COLD = """
import os, sys
sys.path.insert(0, sys.argv[1]); sys.dont_write_bytecode = True
from dst import runner, tape
runner.setup_interpreter()
prop = sys.argv[2]
mod = runner.load(prop)

def one(i):
    run, v = runner.execute(mod, tape.Tape(seed="1:%s:%d" % (prop, i)), "quick")
    return repr((run.h.hexdigest(), run.evals, run.steps, run.faults, run.probes, run.sig, v))

cold = []
for i in range(40):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        with os.fdopen(w, "w", errors="backslashreplace") as f: f.write(one(i))
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f: cold.append(f.read())
    os.waitpid(pid, 0)
late = [one(i) for i in 2 * list(range(40))][40:]
print([i for i in range(40) if cold[i] != late[i].encode("utf-8", "backslashreplace").decode()])
"""


def main():
    argv, extra, props = sys.argv[1:], [], []
    while argv:
        a = argv.pop(0)
        if a.startswith("--"):
            extra += [a, argv.pop(0)]
        else:
            props.append(a)
    if not props:
        with open(os.path.join(HERE, "MANIFEST.json")) as f:
            props = [c["property_id"] if "property_id" in c else c["property"]
                     for c in json.load(f)["checks"]]
    bad = 0
    for p in props:
        one = batch(p, extra)
        noise = [subprocess.Popen([sys.executable, "-c", "while True: pass"]) for _ in range(8)]
        try:
            two = batch(p, extra)
        finally:
            for n in noise:
                n.kill()
                n.wait()
        diff = [k for k in one if one[k] != two.get(k)]
        if diff or "failed" in one:
            bad += 1
            print(p, "DIFFERS", diff, one.get("failed", ""), flush=True)
        else:
            r = subprocess.run([sys.executable, "-X", "utf8", "-c", COLD, HERE, p], env=dict(os.environ, PYTHONHASHSEED="7"),
                               capture_output=True, text=True)
            if r.stdout.strip() != "[]":
                bad += 1
                print(p, "DIFFERS when first in an interpreter", r.stdout, r.stderr[-500:], flush=True)
            print(p, "identical", one["evaluations"], "evaluations", one["event_log_fingerprints"][0], flush=True)
    return bad != 0


if __name__ == "__main__":
    sys.exit(main())
