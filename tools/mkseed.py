"""Stores a planted bug: python3 tools/mkseed.py FILE.  FILE defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(path, old, new)], DEMO.

The bug is kept only if it applies to original lines of the repository, passes the stable tests, and its demonstration passes
without it and fails with it. Works on a scratch copy of /repo under /tmp.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
PY = "/opt/venv/bin/python"
SH = '#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" TZ=UTC exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def tests(repo):
    env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC")
    with tempfile.TemporaryDirectory() as d:
        sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "--import-mode", "importlib", "--randomly-seed=0",
            "--randomly-dont-reorganize", "--timeout=300", "-o", "junit_family=xunit2", f"--junitxml={d}/j.xml", "tests"], repo, env=env)
        sh(["/usr/bin/python3", "/opt/vp/results.py", f"{d}/o.json", f"junit:{d}/j.xml"], repo)
        return set(json.load(open(f"{d}/o.json"))["passed"])


def main(path):
    m = runpy.run_path(path)
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    repo = f"{d}/repo"
    try:
        shutil.copytree("/repo", repo, symlinks=True)
        first = sh(["git", "rev-list", "--max-parents=0", "HEAD"], repo).stdout.strip()[:7]
        for f, old, new in m["EDITS"]:
            text = open(f"{repo}/{f}").read()
            assert text.count(old) == 1, (f, "matches", text.count(old), old)
            open(f"{repo}/{f}", "w").write(text.replace(old, new))
        diff = sh(["git", "diff", "-U3"], repo).stdout
        assert diff
        # every removed line must come from the original commit
        n_removed = 0
        for f in {e[0] for e in m["EDITS"]}:
            blame = sh(["git", "blame", "-s", "--abbrev=7", "HEAD", "--", f], repo).stdout.split("\n")
            line = 0
            for row in sh(["git", "diff", "-U0", "--", f], repo).stdout.split("\n"):
                if row.startswith("@@"):
                    line = int(row.split()[1][1:].split(",")[0])
                elif row.startswith("-") and not row.startswith("---"):
                    n_removed += 1
                    if not blame[line - 1].startswith("^"):
                        print("NOT ORIGINAL:", blame[line - 1])
                        if not m.get("FORCE"):
                            return 1
                    line += 1
        missing = BASE - tests(repo)
        if missing:
            print("FAILS TESTS", sorted(missing)[:8])
            return 1
        out = f"{ROOT}/seeded/{m['ID']}"
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(f"{out}/patch.diff", "w").write(diff)
        open(f"{out}/demo.sh", "w").write(SH)
        os.chmod(f"{out}/demo.sh", 0o755)
        open(f"{out}/demo.py", "w").write(m["DEMO"].lstrip("\n"))
        json.dump({"property": m["PROPERTY"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(f"{out}/meta.json", "w"), indent=1)
        good, bad = sh(["sh", f"{out}/demo.sh"], "/repo"), sh(["sh", f"{out}/demo.sh"], repo)
        if good.returncode != 0 or bad.returncode == 0:
            print("DEMO", good.returncode, good.stdout, good.stderr, "MUTANT", bad.returncode)
            shutil.rmtree(out)
            return 1
        print(m["ID"], "kept:", (bad.stdout + bad.stderr).strip().split("\n")[-1][:150], "" if n_removed else "(no removed lines!)")
        if "--check" in sys.argv:
            r = subprocess.run(["python3-vt", "run.py", m["PROPERTY"], "--tier", "quick"], cwd=ROOT, capture_output=True, text=True,
                               env=dict(os.environ, BINOBJ_REPO=repo))
            print("   check:", r.returncode, [x for x in r.stdout.split("\n") if x.startswith("VIOLATION")][:1], r.stdout.strip().split("\n")[-1][:200])
        return 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


sys.exit(max(main(a) for a in sys.argv[1:] if a != "--check"))
