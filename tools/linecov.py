"""
Lines of resistics that the scenarios of the given checks execute: linecov.py SECONDS C01 C02 ...
Prints per file the function bodies never reached. A design aid, not a check.
"""
import dis
import importlib
import json
import os
import random
import sys
import tempfile
import threading
import time
import types
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
from dst import lib, runner, seam  # noqa: E402

secs = float(sys.argv[1])
seam.install()
base = str(Path(lib.resistics.__file__).parent)
hit = {}


def local(frame, event, arg):
    if event == "line":
        hit.setdefault(frame.f_code.co_filename, set()).add(frame.f_lineno)
    return local


def tracer(frame, event, arg):
    if event == "call" and frame.f_code.co_filename.startswith(base):
        return local
    return None


def code_lines(code, out):
    out.update(line for _, line in dis.findlinestarts(code))
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            code_lines(c, out)


if len(sys.argv) > 2 and sys.argv[2].endswith(".json"):
    for f in sys.argv[2:]:
        for k, v in json.load(open(f)).items():
            hit.setdefault(k, set()).update(v)
else:
    threading.settrace(tracer)
    for pid in sys.argv[2:]:
        prop = importlib.import_module("dst.props." + pid.lower())
        scratch = tempfile.mkdtemp(dir=runner.scratch_base(), prefix="dst-cov-")
        sim = runner.Sim(prop, scratch)
        t0, i = time.time(), 0
        sys.settrace(tracer)
        while time.time() - t0 < secs:
            rng = random.Random(f"cov-{pid}-{i}")
            for scn in prop.cases(rng, f"cov-{i}", "quick", sim):
                try:
                    sim.execute(scn)
                except Exception as exc:
                    print(pid, type(exc).__name__, exc, file=sys.stderr)
                if time.time() - t0 > secs:
                    break
            i += 1
        sys.settrace(None)
        import shutil
        shutil.rmtree(scratch)
        print(pid, i, "seeds", sim.stats["executions"], file=sys.stderr)
    json.dump({k: sorted(v) for k, v in hit.items()}, open(f"/tmp/cov_{'_'.join(sys.argv[2:])}.json", "w"))

if os.environ.get("REPORT") or sys.argv[2].endswith(".json"):
    for path in sorted(Path(base).rglob("*.py")):
        src = path.read_text()
        lines = set()
        for c in compile(src, str(path), "exec").co_consts:
            if isinstance(c, types.CodeType):
                # bodies of classes run at import
                code_lines(c, lines)
        miss = sorted(lines - hit.get(str(path), set()))
        text = src.splitlines()
        print(f"== {path.name}: {len(miss)} of {len(lines)}")
        for n in miss:
            s = text[n - 1].strip() if n <= len(text) else ""
            if s and not s.startswith(("def ", "class ", "@", '"""', "#")) and ":" not in s.split("=")[0][:40]:
                print(f"   {n}: {text[n-1]}")
