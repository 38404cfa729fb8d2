"""Helper: build /verif/seeded/<id>/ from textual replacements against /repo HEAD."""
import difflib, json, os, subprocess


def mk(i, prop, edits, needs, breaks, demo):
    """edits: {file: [(old, new), ...]}"""
    d = f"/verif/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    out = []
    for f, rs in edits.items():
        a = subprocess.run(["git", "-C", "/repo", "show", f"HEAD:{f}"], capture_output=True, text=True, check=True).stdout
        b = a
        for old, new in rs:
            assert b.count(old) == 1, (i, f, old, b.count(old))
            b = b.replace(old, new)
        out += difflib.unified_diff(a.splitlines(True), b.splitlines(True), f"a/{f}", f"b/{f}")
    open(f"{d}/patch.diff", "w").write("".join(out))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    open(f"{d}/demo.py", "w").write(demo.lstrip("\n"))
    open(f"{d}/demo.sh", "w").write(
        '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2 OPENBLAS_NUM_THREADS=2\n'
        'export PYTHONPATH="$PWD/src:$PWD"\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
