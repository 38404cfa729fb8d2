"""Split independent obligations over forked workers and merge their bookkeeping."""
from __future__ import annotations

import os
import pickle
import traceback

from .program import AnalysisError
from .report import Check


def guarded(work, item, sub):
    """an item the analysis cannot read stays an open obligation"""
    try:
        work(item, sub)
    except AnalysisError as e:
        sub.undecided("item", "analysis", e)
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception:
        sub.undecided("item", "analysis", traceback.format_exc()[-500:])


def split(chk, items, work, procs=None):
    """work(item, sub_check) for every item; results are merged into chk in item order"""
    items = list(items)
    procs = min(procs or min(8, os.cpu_count() or 1), max(1, len(items)))
    if procs == 1:
        for it in items:
            guarded(work, it, chk)
        return
    kids = []
    for k in range(procs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            out = {"err": None, "res": []}
            try:
                for j in range(k, len(items), procs):
                    sub = Check(chk.pid)
                    guarded(work, items[j], sub)
                    out["res"].append((j, dict(obligations=sub.obligations, discharged=sub.discharged, samples=sub.samples,
                                               findings=[(f.rule, f.construct, f.where, f.detail) for f in sub.findings],
                                               counts=sub.counts, functions=sub.functions)))
            except AnalysisError as e:
                out["err"] = ("analysis", str(e))
            except BaseException:
                out["err"] = ("crash", traceback.format_exc())
            try:
                with os.fdopen(w, "wb") as f:
                    pickle.dump(out, f)
            finally:
                os._exit(0)
        os.close(w)
        kids.append((pid, r))
    res, err = [], None
    for pid, r in kids:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            err = err or ("crash", "a worker ended without a result")
            continue
        out = pickle.loads(data)
        res += out["res"]
        err = err or out["err"]
    if err:
        if err[0] == "analysis":
            raise AnalysisError(err[1])
        raise RuntimeError(err[1])
    from .report import Finding

    for _, s in sorted(res, key=lambda x: x[0]):
        chk.obligations += s["obligations"]
        chk.discharged += s["discharged"]
        for k, v in s["counts"].items():
            chk.count(k, v)
        chk.functions |= s["functions"]
        for x in s["samples"]:
            if sum(1 for y in chk.samples if y["rule"] == x["rule"]) < 4:
                chk.samples.append(x)
        for f in s["findings"]:
            f = Finding(*f)
            if all(x.key != f.key for x in chk.findings):
                chk.findings.append(f)
