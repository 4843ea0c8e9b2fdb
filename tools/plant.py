#!/usr/bin/env python3
"""
Development aid: turn bug specifications (python files with a list BUGS) into seeded/<id>/ after
confirming each in a scratch copy: applies, changes original lines, builds, the stable tests pass,
the demo passes on the unchanged tree and fails with the change.
  tools/plant.py SPEC.py [ID...]        env SKIPTESTS=1: leave out the stable tests (report only)
A bug: id, prop, edits=[(file, old, new)], demo=python source, needs, breaks
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
V = Path(__file__).resolve().parent.parent
BASE = "9b5ec33"
ENV = dict(os.environ, HOME="/root", LANG="C.UTF-8", LC_ALL="C.UTF-8", TZ="UTC", PYTHONDONTWRITEBYTECODE="1",
           PYTHONHASHSEED="0", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
STABLE = None


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def plant(bug):
    work = Path(tempfile.mkdtemp(prefix="plant."))
    try:
        sh(["git", "clone", "-q", "/repo", str(work / "clean")], work)
        sh(["git", "clone", "-q", "/repo", str(work / "bad")], work)
        for f, old, new in bug["edits"]:
            p = work / "bad" / "resistics" / f
            text = p.read_text()
            if text.count(old) != 1:
                return bug["id"], "EDIT matches %d times in %s: %r" % (text.count(old), f, old[:80])
            p.write_text(text.replace(old, new))
        diff = sh(["git", "diff"], work / "bad").stdout
        orig = 0
        blame = {}
        cur = None
        for line in diff.splitlines():
            if line.startswith("--- a/"):
                cur = line[6:]
                if cur not in blame:
                    blame[cur] = [x.split()[0].lstrip("^") for x in sh(["git", "blame", "-l", "HEAD", "--", cur], work / "bad").stdout.splitlines()]
            elif line.startswith("@@"):
                n = int(line.split()[1].split(",")[0][1:])
            elif line.startswith("-"):
                if sh(["git", "merge-base", "--is-ancestor", blame[cur][n - 1], BASE], work / "bad").returncode == 0:
                    orig += 1
                else:
                    print(bug["id"], "note: changes a line of ours:", line)
                n += 1
            elif not line.startswith("+"):
                try: n += 1
                except NameError: pass
        out = V / "seeded" / bug["id"]
        stage = work / "stage"
        stage.mkdir()
        (stage / "patch.diff").write_text(diff)
        (stage / "demo.py").write_text("from util import *\n" + bug["demo"].strip("\n") + "\n")
        shutil.copy(V / "tools/seedutil/util.py", stage / "util.py")
        (stage / "demo.sh").write_text('#!/bin/bash\n# Run with cwd /repo: exit 0 if the property holds, nonzero otherwise\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH="$here"\nexec /opt/venv/bin/python "$here/demo.py"\n')
        os.chmod(stage / "demo.sh", 0o755)
        (stage / "meta.json").write_text(json.dumps({"property": bug["prop"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, indent=1) + "\n")
        good = sh(["bash", str(stage / "demo.sh")], work / "clean", timeout=300)
        bad = sh(["bash", str(stage / "demo.sh")], work / "bad", timeout=300)
        if good.returncode != 0:
            return bug["id"], "DEMO FAILS ON CLEAN TREE:\n" + good.stdout[-1500:]
        if bad.returncode == 0:
            return bug["id"], "DEMO PASSES WITH BUG:\n" + bad.stdout[-800:]
        why = (bad.stdout.strip().splitlines() or ["?"])[-1]
        if orig == 0:
            print(bug["id"], "WARNING: no original line removed or changed")
        if not os.environ.get("SKIPTESTS"):
            t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors",
                    "--basetemp=%s/tmp" % work], work / "bad")
            tail = [x for x in t.stdout.splitlines() if " passed" in x and " in " in x]
            if "84 passed" not in (tail or [""])[-1]:
                return bug["id"], "TESTS: " + str(tail) + t.stdout[-300:]
        if out.exists():
            shutil.rmtree(out)
        shutil.copytree(stage, out)
        return bug["id"], "KEPT (fails with: %s)" % why[:150]
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    bugs = [b for b in mod.BUGS if not sys.argv[2:] or b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(4) as ex:
        for bid, msg in ex.map(plant, bugs):
            print(bid, msg, flush=True)


main()
