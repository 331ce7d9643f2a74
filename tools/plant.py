"""Turn a list of bug descriptions into /verif/seeded/<id>/ and confirm each of them.

usage: plant.py SPEC.py [ids...]        SPEC defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)]
       plant.py --recheck [ids...]      run the check of every planted bug again
Works only on a scratch copy of /repo below /tmp/w/mut, which is removed afterwards.
"""
import concurrent.futures as cf
import json
import os
import runpy
import shutil
import subprocess
import sys
import time
import xml.etree.ElementTree as ET
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SCRATCH = Path("/tmp/w/mut")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
PY = "/opt/venv/bin/python"


def env_for(tree):
    env = dict(os.environ)
    env.update(PYTHONPATH=str(tree), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
               OMP_NUM_THREADS="1", SETUPTOOLS_SCM_PRETEND_VERSION="0.14.0")
    return env


def run_tests(tree):
    xml = tree / "junit.xml"
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "2", "--timeout=300",
                    "--continue-on-collection-errors", f"--junitxml={xml}", "pyirf"],
                   cwd=tree, env=env_for(tree), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    ok = set()
    for case in ET.parse(xml).iter("testcase"):
        if not any(c.tag in ("failure", "error", "skipped") for c in case):
            ok.add(f"{case.get('classname')}::{case.get('name')}")
    xml.unlink()
    return sorted(STABLE - ok)


def not_original(diff):
    """Lines removed by the patch which were added by later commits (or no removed line at all)."""
    import re
    removed, bad, file, line = 0, [], None, 0
    for row in diff.splitlines():
        if row.startswith("--- a/"):
            file = row[6:]
            blame = subprocess.run(["git", "blame", "-s", "--root", "HEAD", "--", file], cwd="/repo",
                                   capture_output=True, text=True).stdout.splitlines()
        elif m := re.match(r"@@ -(\d+)", row):
            line = int(m[1])
        elif row.startswith("-"):
            removed += 1
            if not blame[line - 1].startswith(("37e665b", "^37e665b")):
                bad.append(row)
            line += 1
        elif not row.startswith("+"):
            line += 1
    return bad or ([] if removed else ["nothing removed"])


def run_demo(folder, tree):
    p = subprocess.run(["bash", str(folder / "demo.sh")], cwd=tree, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"),
                       capture_output=True, text=True, timeout=300)
    return p.returncode, (p.stdout + p.stderr).strip()[-400:]


def make_tree(bug):
    tree = SCRATCH / bug
    shutil.rmtree(tree, ignore_errors=True)
    tree.parent.mkdir(parents=True, exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", str(tree)], check=True)
    return tree


def check(prop, tree):
    t = time.time()
    p = subprocess.run([str(VERIF / "check"), prop], cwd=VERIF,
                       env=dict(os.environ, VERIF_REPO=str(tree), VERIF_TIER="quick", VERIF_SEED="1",
                                VERIF_EVIDENCE=str(tree) + ".evidence.json"),
                       capture_output=True, text=True)
    lines = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
    return p.returncode, lines, time.time() - t, p.stdout[-1500:] + p.stderr[-500:]


def plant(bug):
    folder = VERIF / "seeded" / bug["id"]
    tree = make_tree(bug["id"])
    try:
        for file, old, new in bug["edits"]:
            path = tree / file
            text = path.read_text()
            if text.count(old) != 1:
                return bug["id"], f"EDIT: {text.count(old)} matches in {file}: {old!r}"
            path.write_text(text.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=tree, capture_output=True, text=True).stdout
        if bad := not_original(diff):
            return bug["id"], f"NOT ORIGINAL: {bad}"
        shutil.rmtree(folder, ignore_errors=True)
        folder.mkdir(parents=True)
        (folder / "patch.diff").write_text(diff)
        (folder / "demo.py").write_text(bug["demo"].lstrip("\n"))
        (folder / "demo.sh").write_text(
            '#!/bin/bash\n# run with cwd at the tree under test\n'
            'here="$(cd "$(dirname "$0")" && pwd)"\n'
            'PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore "$here/demo.py"\n')
        os.chmod(folder / "demo.sh", 0o755)
        (folder / "meta.json").write_text(json.dumps(
            {"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, indent=1) + "\n")
        rc, out = run_demo(folder, "/repo")
        if rc != 0:
            shutil.rmtree(folder)
            return bug["id"], f"DEMO fails on unchanged tree: {out}"
        rc, out = run_demo(folder, tree)
        if rc == 0:
            shutil.rmtree(folder)
            return bug["id"], "DEMO passes on changed tree"
        missing = run_tests(tree)
        if missing:
            shutil.rmtree(folder)
            return bug["id"], f"TESTS fail: {missing[:4]}"
        rc, lines, dt, tail = check(bug["property"], tree)
        verdict = "CAUGHT" if rc == 1 and lines else ("MISSED" if rc == 0 else f"BROKEN rc={rc} {tail}")
        return bug["id"], f"{verdict} {bug['property']} {dt:.0f}s | demo: {out.splitlines()[-1][:100] if out else ''}"
    finally:
        shutil.rmtree(tree, ignore_errors=True)
        Path(str(tree) + ".evidence.json").unlink(missing_ok=True)


def recheck(bug):
    folder = VERIF / "seeded" / bug
    meta = json.loads((folder / "meta.json").read_text())
    tree = make_tree(bug)
    try:
        p = subprocess.run(["git", "apply", str(folder / "patch.diff")], cwd=tree, capture_output=True, text=True)
        if p.returncode:
            return bug, "PATCH " + p.stderr
        rc, lines, dt, tail = check(meta["property"], tree)
        return bug, f"{'CAUGHT' if rc == 1 and lines else 'MISSED' if rc == 0 else 'BROKEN ' + tail} {meta['property']} {dt:.0f}s"
    finally:
        shutil.rmtree(tree, ignore_errors=True)
        Path(str(tree) + ".evidence.json").unlink(missing_ok=True)


if __name__ == "__main__":
    args = sys.argv[1:]
    with cf.ThreadPoolExecutor(2) as pool:
        if args[0] == "--recheck":
            ids = args[1:] or sorted(p.name for p in (VERIF / "seeded").iterdir())
            jobs = [pool.submit(recheck, i) for i in ids]
        else:
            bugs = runpy.run_path(args[0])["BUGS"]
            jobs = [pool.submit(plant, b) for b in bugs if not args[1:] or b["id"] in args[1:]]
        for job in cf.as_completed(jobs):
            print(*job.result(), flush=True)
