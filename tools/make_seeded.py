#!/usr/bin/env python3
"""Create and confirm planted bugs: make_seeded.py DEFS.py [ID ...]

DEFS.py defines BUGS: {id: dict(property=, needs=, breaks=, edits=[(file, old, new)], demo=)}.
For each bug: apply the edits to a scratch copy of /repo, run the test suite
and the demonstration with and without the change, and only then write
/verif/seeded/<id>/.  With --check also run the property's check (quick).
"""
import json, os, runpy, shutil, subprocess, sys, tempfile, textwrap
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/sh
# exit 0 when the property holds, 1 when it does not; run with cwd = the repository
exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 timeout 120 python3 "$(dirname "$0")/demo.py"
'''

def sh(cmd, cwd, timeout=300, **kw):
    return subprocess.run(cmd, cwd=cwd, timeout=timeout, capture_output=True, text=True, **kw)

def one(bid, b, check):
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        for f, old, new, *nth in b["edits"]:
            p = os.path.join(repo, "iso8583", f)
            t = open(p).read()
            if nth and t.count(old) > nth[0]:        # the n-th of several matches
                i = -1
                for _ in range(nth[0] + 1):
                    i = t.index(old, i + 1)
                open(p, "w").write(t[:i] + new + t[i + len(old):])
                continue
            if t.count(old) != 1:
                return bid, "EDIT: %d matches of %r" % (t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = sh(["git", "diff", "--no-ext-diff"], repo).stdout
        out = os.path.join(tmp, "out"); os.mkdir(out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "demo.py"), "w").write(textwrap.dedent(b["demo"]).lstrip())
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        r = sh(["git", "apply", "--check", os.path.join(out, "patch.diff")], "/repo")
        if r.returncode: return bid, "APPLY " + r.stderr
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], repo, env=env)
        tail = r.stdout.strip().splitlines()[-1:]
        if r.returncode: return bid, "TESTS FAIL: %s %s" % (tail, [l for l in r.stdout.splitlines() if l.startswith(("FAILED", "E  "))][:3])
        wh = sh(["/opt/venv/bin/python", "-c", "import iso8583;print(iso8583.__file__)"], repo).stdout
        if not wh.startswith(repo): return bid, "tests did not import the copy: " + wh
        r0 = sh(["sh", os.path.join(out, "demo.sh")], "/repo")
        if r0.returncode: return bid, "DEMO fails on clean: " + (r0.stdout + r0.stderr)[-400:]
        r1 = sh(["sh", os.path.join(out, "demo.sh")], repo)
        if not r1.returncode: return bid, "DEMO passes with bug"
        dst = os.path.join(HERE, "seeded", bid)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        res = "kept; demo: " + ((r1.stdout + r1.stderr).strip().splitlines() or [""])[-1][:100]
        if check:
            r = subprocess.run([sys.executable, "check.py", b["property"], "--tier", "quick"], cwd=HERE,
                               capture_output=True, text=True, timeout=900,
                               env=dict(os.environ, DST_REPO=repo, DST_OUT=out, VERIF_SEED="1"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            res += "\n      CHECK %s exit=%d %s" % (b["property"], r.returncode, "CAUGHT" if v and r.returncode == 1 else "**MISSED**")
            if v: res += " " + " | ".join(l.strip() for l in r.stdout.splitlines() if not l.startswith("VIOLATION"))[:230]
            elif r.returncode: res += (r.stdout + r.stderr)[-500:]
        return bid, res
    except Exception as e:
        return bid, "EXC %r" % e
    finally:
        shutil.rmtree(tmp)

if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    bugs = runpy.run_path(args[0])["BUGS"]
    ids = args[1:] or list(bugs)
    with ThreadPoolExecutor(2 if "--check" in sys.argv else 6) as ex:
        for bid, r in ex.map(lambda i: one(i, bugs[i], "--check" in sys.argv), ids):
            print("%-22s %s" % (bid, r), flush=True)
