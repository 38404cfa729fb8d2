"""Try single-edit variants of /repo's sources against one check (development aid).
mutate(check, [(file, old, new), ...]) prints which variants the check reports."""
import concurrent.futures as cf
import os
import shutil
import subprocess


def run(check, k, edits):
    d = f"/tmp/mut/{check}_{k}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree(os.environ.get("MUT_SRC", "/repo") + "/src", d + "/src", ignore=shutil.ignore_patterns("*.so", "*.c", "*.cpp", "__pycache__"))
    for f, old, new in edits:
        p = f"{d}/src/glum/{f}"
        s = open(p).read()
        if s.count(old) < 1:
            return k, "NOMATCH", old[:60]
        s = s.replace(old, new, 1)
        open(p, "w").write(s)
    e = dict(os.environ, VERIF_REPO=d, VERIF_EVID="/tmp/mut/ev", VERIF_DEBUG="1")
    r = subprocess.run(["/opt/venv/bin/python", "/verif/check.py", check], capture_output=True, text=True, env=e)
    shutil.rmtree(d, ignore_errors=True)
    line = [l for l in r.stdout.splitlines() if l.startswith("  [")]
    unres = sum(l.startswith("UNRESOLVED") for l in r.stdout.splitlines())
    return k, r.returncode, f"unres={unres} " + ((line[0][:200] if line else (r.stdout.splitlines() or [r.stderr[-300:]])[-1][:200]))


def mutate(check, muts, procs=4):
    with cf.ThreadPoolExecutor(procs) as ex:
        fs = [ex.submit(run, check, k, m if isinstance(m, list) else [m]) for k, m in enumerate(muts)]
        for f, m in zip(fs, muts):
            k, rc, d = f.result()
            m = m if isinstance(m, list) else [m]
            print(f"#{k} rc={rc} {m[0][2][:70]!r}\n      {d}")
