#!/opt/venv/bin/python
"""Run one property check:  check.py <ID> [--tier quick|thorough]"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") is None:  # the same exploration order in every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
import threading

sys.setrecursionlimit(50000)
threading.stack_size(512 * 1024 * 1024)

from sa.program import AnalysisError, Program  # noqa: E402
from sa.report import Check, finish  # noqa: E402
from sa.registry import CHECKS  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod, fn = CHECKS[pid]
    chk = Check(pid)
    try:
        prog = Program()
        f = getattr(importlib.import_module(f"sa.props.{mod}"), fn)
        f(prog, chk, tier)
        return finish(chk, tier, seed)
    except AnalysisError as e:
        print(f"ANALYSIS-ERROR property={pid}: {e}")
        return 2


if __name__ == "__main__":
    box = []

    def run():
        try:
            box.append(main())
        except BaseException:
            import traceback

            traceback.print_exc()
            box.append(3)

    t = threading.Thread(target=run)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(box[0])
