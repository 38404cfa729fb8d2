#!/opt/venv/bin/python
"""Confirm planted changes in a scratch copy:  plant.py ID...
build, stable tests, demo without/with the patch; then (with --check) run the property's check on it.
Scratch: /tmp/scr/repo (created from /repo, kept between calls)."""
import json, os, re, shutil, subprocess, sys

SCR = "/tmp/scr/repo"
SEED = "/verif/seeded"


def sh(cmd, cwd=None, env=None, timeout=1200):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def setup():
    if not os.path.exists(SCR):
        os.makedirs("/tmp/scr", exist_ok=True)
        sh(f"cp -a /repo {SCR}")
    for n in ("build.sh", "test.sh"):
        t = open(f"/opt/vp/{n}").read()
        t = t.replace("/opt/vp/build.sh", "/tmp/scr/build.sh")
        t = re.sub(r"PYTHONPATH=/repo\b", "PYTHONPATH=/repo:/repo/src", t)
        t = re.sub(r"(?<![\w/])/repo\b", SCR, t).replace(":/repo/src", f":{SCR}/src")
        open(f"/tmp/scr/{n}", "w").write(t)
    # sync with /repo HEAD
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh(f"git -C {SCR} fetch -q /repo HEAD && git -C {SCR} checkout -q -f {head}")
    sh(f"git -C {SCR} checkout -q -- .")


def demo(i):
    d = "/tmp/scr/demo"
    if os.path.exists(d):
        shutil.rmtree(d)
    shutil.copytree(f"{SEED}/{i}", d, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    r = sh(f"bash {d}/demo.sh", cwd=SCR, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-400:]


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base["stable"]) if isinstance(base.get("stable"), list) else set(base["stable"])
    for i in ids:
        setup()
        meta = json.load(open(f"{SEED}/{i}/meta.json"))
        b0 = sh("bash /tmp/scr/build.sh")
        if b0.returncode:
            print(i, "base build failed", b0.stdout[-300:], b0.stderr[-300:]); continue
        rc0, o0 = demo(i)
        a = sh(f"git -C {SCR} apply {SEED}/{i}/patch.diff")
        if a.returncode:
            print(i, "patch does not apply", a.stderr); continue
        b = sh("bash /tmp/scr/build.sh")
        if b.returncode:
            print(i, "build failed", b.stderr[-400:])
            sh(f"git -C {SCR} checkout -q -- .")
            continue
        rc1, o1 = demo(i)
        miss = "skipped"
        if "--notest" not in sys.argv:
            sh("bash /tmp/scr/test.sh /tmp/scr/out.json")
            out = json.load(open("/tmp/scr/out.json"))
            miss = sorted(stable - set(out["passed"]))
        chk = None
        if "--check" in sys.argv:
            e = dict(os.environ, VERIF_REPO=SCR)
            r = sh(f"/opt/venv/bin/python /verif/check.py {meta['property']}", cwd="/verif", env=e)
            chk = r.returncode, r.stdout[-300:]
        print(i, "demo base", rc0, "patched", rc1, "missing tests", miss if not isinstance(miss, list) else (len(miss), miss[:4]), "check", chk)
        if rc0 != 0:
            print("  base demo output:", o0)
        if rc1 == 0:
            print("  patched demo output:", o1)
        sh(f"git -C {SCR} checkout -q -- .")


main()
