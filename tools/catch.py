"""Which check catches which planted bug?  python3 tools/catch.py [--runs N] [ID...]

Every patch of seeded/ is applied to a scratch copy of /repo and its property's check is run on it.
Prints one line per bug: caught or not, the run that failed, whether the minimised replay file
reproduced the violation exactly in two fresh processes, and the length of its tape."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    argv, extra = sys.argv[1:], []
    if argv[:1] == ["--runs"]:
        extra, argv = argv[:2], argv[2:]
    ids = argv or sorted(os.listdir(os.path.join(HERE, "seeded")))
    missed = 0
    for bid in ids:
        d = os.path.join(HERE, "seeded", bid)
        with open(os.path.join(d, "meta.json")) as f:
            prop = json.load(f)["property"]
        tmp = tempfile.mkdtemp(prefix="catch-")
        try:
            repo = os.path.join(tmp, "repo")
            shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git"))
            subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=repo, check=True)
            r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), prop] + extra,
                               env=dict(os.environ, DST_REPO=repo, DST_OUT=tmp), capture_output=True, text=True)
            m = re.search(r"^run (\d+) \(seed (\d+)\): ([\w-]+)", r.stdout, re.M)
            n = re.search(r"tape (\d+) -> (\d+) entries, reproduced in fresh processes: (\w+)", r.stdout)
            ok = r.returncode == 1 and m is not None
            missed += not ok
            print("%-24s %s %s" % (bid, prop, "caught at run %s (%s), tape %s -> %s, reproduced %s" % (
                m.group(1), m.group(3), n.group(1), n.group(2), n.group(3)) if ok and n
                else "MISSED exit %d" % r.returncode), flush=True)
        finally:
            shutil.rmtree(tmp)
    return missed != 0


if __name__ == "__main__":
    sys.exit(main())
