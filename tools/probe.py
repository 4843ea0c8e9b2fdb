#!/usr/bin/env python3
"""Development aid: which bug specifications does a check catch?  tools/probe.py SPEC.py [ID...]  (env TIER, CAP, SEED, CHECKS)"""
import importlib.util, os, shutil, subprocess, sys, tempfile
from pathlib import Path
V = Path(__file__).resolve().parent.parent
spec = importlib.util.spec_from_file_location("spec", sys.argv[1])
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
for b in mod.BUGS:
    if sys.argv[2:] and b["id"] not in sys.argv[2:]:
        continue
    work = tempfile.mkdtemp(prefix="probe.")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", work + "/r"], check=True)
        bad = None
        for f, old, new in b["edits"]:
            p = Path(work, "r", "resistics", f)
            t = p.read_text()
            n = t.count(old)
            if n < 1 or (n > 1 and not b.get("all")):
                bad = f"EDIT matches {n} times in {f}: {old[:60]!r}"
                break
            p.write_text(t.replace(old, new))
        if bad:
            print(b["id"], bad, flush=True)
            continue
        for c in os.environ.get("CHECKS", b["prop"]).split():
            env = dict(os.environ, DST_REPO=work + "/r", DST_EVIDENCE=work + "/ev")
            cmd = [str(V / "check"), c, "--tier", os.environ.get("TIER", "quick"), "--seed", os.environ.get("SEED", "1")]
            if os.environ.get("CAP"):
                cmd += ["--cap", os.environ["CAP"]]
            r = subprocess.run(cmd, cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            lines = [x for x in r.stdout.splitlines() if x.strip()]
            first = lines[0][:110] if lines else ""
            print(f"{b['id']:28s} {c} rc={r.returncode} {'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + c in r.stdout else 'MISSED' if r.returncode == 0 else '??????'} {first} | {lines[-1].split(',')[-2:] if lines else ''}", flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
