"""Which single edits pass the stable tests (development aid): survive(name, [(file, old, new), ...])"""
import json, os, re, shutil, subprocess

SCR = "/tmp/sv/repo"


def sh(cmd):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=1500)


def setup():
    if not os.path.exists(SCR):
        os.makedirs("/tmp/sv", exist_ok=True)
        sh(f"cp -a /repo {SCR}")
    for n in ("build.sh", "test.sh"):
        t = open(f"/opt/vp/{n}").read().replace("/opt/vp/build.sh", "/tmp/sv/build.sh")
        t = re.sub(r"PYTHONPATH=/repo\b", "PYTHONPATH=/repo:/repo/src", t)
        t = re.sub(r"(?<![\w/])/repo\b", SCR, t).replace(":/repo/src", f":{SCR}/src").replace("-n 8", "-n 5")
        open(f"/tmp/sv/{n}", "w").write(t)
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh(f"git -C {SCR} fetch -q /repo HEAD && git -C {SCR} checkout -q -f {head} && git -C {SCR} checkout -q -- .")


def survive(name, muts, **_):
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    setup()
    for k, m in enumerate(muts):
        m = m if isinstance(m, list) else [m]
        ok = True
        for f, old, new in m:
            p = f"{SCR}/src/glum/{f}"
            s = open(p).read()
            ok &= old in s
            open(p, "w").write(s.replace(old, new, 1))
        if ok:
            if any(f.endswith(".pyx") for f, *_ in m):
                sh("bash /tmp/sv/build.sh")
            sh("bash /tmp/sv/test.sh /tmp/sv/out.json")
            miss = sorted(stable - set(json.load(open("/tmp/sv/out.json"))["passed"]))
        else:
            miss = ["NOMATCH"]
        print(f"{name}#{k} missing={len(miss)} {m[0][2][:70]!r} {miss[:2]}", flush=True)
        sh(f"git -C {SCR} checkout -q -- .")


mutate = survive
