#!/usr/bin/env python3
"""Plants the bugs described in a spec file: verifies each in a scratch copy of /repo and keeps it under /verif/seeded.

A spec file is Python defining BUGS = [dict(id=, property=, needs=, what=, edits=[(file, old, new)], demo=python text)].
usage: plant.py SPEC [ID...]
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO = '#!/bin/sh\n# exit 0 where the property holds, nonzero where it is broken\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def one(b):
    work = tempfile.mkdtemp(prefix="plant_")
    try:
        repo = os.path.join(work, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        d = os.path.join(work, b["id"])
        os.makedirs(d)
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write(DEMO)
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write(b["demo"].lstrip("\n"))
        env = dict(os.environ, PYTHONPATH=repo)
        base = subprocess.run(["sh", os.path.join(d, "demo.sh")], cwd=repo, capture_output=True, text=True, timeout=300)
        for f, old, new in b["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "%s: text occurs %d times in %s" % (b["id"], s.count(old), f)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True).stdout
        with open(os.path.join(d, "patch.diff"), "w") as f:
            f.write(diff)
        bad = subprocess.run(["sh", os.path.join(d, "demo.sh")], cwd=repo, capture_output=True, text=True, timeout=300)
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2",
                        "--junitxml=" + work + "/j.xml"], cwd=repo, env=env, capture_output=True)
        subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", work + "/o.json", "junit:" + work + "/j.xml"], capture_output=True)
        missing = sorted(stable - set(json.load(open(work + "/o.json"))["passed"]))
        chk = subprocess.run(["/usr/bin/python3", V + "/check.py", b["property"]], env=dict(os.environ, PA_ROOT=repo), capture_output=True, text=True)
        valid = base.returncode == 0 and bad.returncode != 0 and not missing
        first = [l for l in chk.stdout.splitlines() if l.startswith("  ")][:1]
        res = "%s %s: demo %d/%d, tests lost %d%s, check exits %d %s" % ("VALID" if valid else "INVALID", b["id"], base.returncode, bad.returncode, len(missing), " " + str(missing[:2]) if missing else "",
                                                                chk.returncode, (first or chk.stdout.splitlines()[-1:] or [""])[0][:200])
        if base.returncode:
            res += "\n" + base.stderr[-400:]
        if valid:
            dst = os.path.join(V, "seeded", b["id"])
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["what"]), open(dst + "/meta.json", "w"), indent=1)
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)


from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(6) as ex:
    for r in ex.map(one, [b for b in spec["BUGS"] if not only or b["id"] in only]):
        print(r, flush=True)
