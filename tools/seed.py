#!/usr/bin/env python3
"""Plant bugs: `tools/seed.py SPEC.py [ID...]`.

SPEC.py defines BUGS, a list of dicts(id, property, file, edits=[(old, new)...], demo, needs,
breaks).  Each is tried in a scratch copy of /repo: the demonstration must pass on /repo and fail on the
copy, the stable tests must pass on the copy, and the check of the property is run
against the copy.  Confirmed ones are written to /verif/seeded/<id>/.
"""
import concurrent.futures as cf
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

PY = "/opt/venv/bin/python"
BASE = "7433476"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO_SH = """#!/bin/bash
# cwd: the repository. Exit 0 when the property holds.
export PYTHONPATH="$PWD/src" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
export NUMBA_CACHE_DIR="$(mktemp -d)"
trap 'rm -rf "$NUMBA_CACHE_DIR"' EXIT
timeout 250 /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(tree, work):
    env = dict(os.environ, PYTHONPATH=f"{tree}/src:/opt/vp/support", PYTHONHASHSEED="0", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLCONFIGDIR=work + "/mpl", NUMBA_CACHE_DIR=work + "/numba", IPYTHONDIR=work + "/ipython",
               PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", JUPYTER_RUNTIME_DIR=work + "/jrt", JUPYTER_DATA_DIR=work + "/jd", JUPYTER_CONFIG_DIR=work + "/jc")
    base = [PY, "-m", "pytest", "-q", "-p", "vp_seed", "-p", "no:cacheprovider", "--continue-on-collection-errors", "-o", "junit_family=xunit2"]
    sh(base + ["--junitxml", work + "/unit.xml", "--timeout=300", "--ignore=tests/notebooks_test.py"], cwd=tree, env=env)
    os.makedirs(work + "/copy")
    for n in ("tests", "examples", "pytest.ini", "pyproject.toml"):
        sh(["cp", "-a", f"{tree}/{n}", work + "/copy/"])
    os.makedirs(work + "/ipython/profile_default/startup", exist_ok=True)
    shutil.copy("/opt/vp/support/00-seed.py", work + "/ipython/profile_default/startup/")
    sh(base + ["--junitxml", work + "/nb.xml", "--timeout=600", "-n", "2", "tests/notebooks_test.py"], cwd=work + "/copy", env=env)
    ok = set()
    for f in ("unit.xml", "nb.xml"):
        for tc in ET.parse(f"{work}/{f}").getroot().iter("testcase"):
            if not list(tc) or all(c.tag in ("system-out", "system-err", "properties") for c in tc):
                ok.add(f"{tc.get('classname')}::{tc.get('name')}")
    return sorted(STABLE - ok)


def one(b):
    out = {"id": b["id"], "ok": False}
    work = tempfile.mkdtemp(prefix="sd_")
    try:
        tree = work + "/repo"
        sh(["cp", "-a", "/repo", tree])
        files = [(f, b["edits"]) for f in [b.get("file")] if f] or list(b["files"].items())
        for f, edits in files:
            p = f"{tree}/src/pystrata/{f}"
            s = open(p).read()
            for old, new in edits:
                if s.count(old) != 1:
                    out["why"] = f"{s.count(old)} matches of {old[:80]!r}"
                    return out
                s = s.replace(old, new)
            open(p, "w").write(s)
        diff = sh(["git", "diff"], cwd=tree).stdout
        # the changed lines belong to the original repository
        for f, _ in files:
            blame = sh(["git", "blame", "-s", "HEAD", "--", f"src/pystrata/{f}"], cwd="/repo").stdout.splitlines()
            n = None
            cur = None
            for line in diff.splitlines():
                if line.startswith("+++"):
                    cur = line[6:]
                if line.startswith("@@"):
                    n = int(line.split("-")[1].split(",")[0].split(" ")[0])
                    continue
                if n is None or cur != f"src/pystrata/{f}" or line.startswith("+"):
                    continue
                if line.startswith("-") and not line.startswith("---"):
                    h = blame[n - 1].split()[0].lstrip("^")
                    if not BASE.startswith(h[:7]):
                        out["why"] = f"line {n} is not of the base: {h}"
                        return out
                if line.startswith("diff "):
                    n = None
                    continue
                n += 1
        sd = f"{work}/seed"
        os.makedirs(sd)
        open(sd + "/patch.diff", "w").write(diff)
        open(sd + "/demo.py", "w").write(b["demo"])
        open(sd + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(sd + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(sd + "/meta.json", "w"), indent=1)
        r = sh(["bash", sd + "/demo.sh"], cwd="/repo")
        if r.returncode:
            out["why"] = "demo fails on the clean tree: " + r.stdout[-500:]
            return out
        r = sh(["bash", sd + "/demo.sh"], cwd=tree)
        if not r.returncode:
            out["why"] = "demo passes on the changed tree"
            return out
        out["demo"] = r.stdout.strip().splitlines()[-1:]
        bad = tests(tree, work)
        if bad:
            out["why"] = f"{len(bad)} stable tests fail: {bad[:3]}"
            return out
        dst = f"/verif/seeded/{b['id']}"
        if os.path.isdir(dst):
            for n in os.listdir(dst):
                os.unlink(f"{dst}/{n}")
        os.makedirs(dst, exist_ok=True)
        for n in os.listdir(sd):
            shutil.copy(f"{sd}/{n}", dst)
        out["ok"] = True
        for c in b.get("checks", [b["property"]]):
            r = sh(["./check", c, "--workers", "4"], cwd="/verif", env=dict(os.environ, PBT_REPO=tree, PBT_OUT=work + "/out"))
            out[c] = (r.returncode, [l[:250] for l in r.stdout.splitlines() if l.startswith(("sub-check", "VIOL", "C"))][:2])
    except Exception as e:
        out["why"] = repr(e)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return out


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    bugs = [b for b in bugs if not want or b["id"] in want]
    with cf.ThreadPoolExecutor(4) as ex:
        for o in ex.map(one, bugs):
            print(json.dumps(o), flush=True)
