#!/opt/venv/bin/python
"""check.py <PROPERTY> [--tier quick|thorough] | check.py --replay FILE

Explores one property exhaustively within its bounds against the code in /repo's working tree."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


# properties whose thorough bounds take less than about half a minute: every change is checked within them
DEEP = {"D01", "D06", "D08", "L01", "L06", "C06", "V01", "V02", "F01", "F02", "F04", "R02", "R03", "R05"}


def bootstrap():
    want = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
            "PYTHONWARNINGS": "ignore", "PYTHONPYCACHEPREFIX": "/nonexistent-verif-pycache"}
    if os.environ.get("VERIF_BOOT") != "1":
        env = dict(os.environ, VERIF_BOOT="1", **want)
        for k in ("PYTHONPATH", "PYTHONHOME", "PYTHONSTARTUP"):
            env.pop(k, None)
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path[:0] = [REPO, os.path.join(HERE, "mc")]


def self_test():
    """The model decodes what the model writes (no code under test involved)."""
    import pmlref as P
    for is64 in (0, 1):
        evs = [P.Ev(1, 3, b"\x09\0\0\0", tid=k, stack=tuple(range(k))) for k in range(4)]
        log = P.RefLog(P.Pml(is64=is64, events=evs, procs=[P.Proc()], strings=("s",)).build())
        assert [log.event(k).tid for k in range(4)] == [0, 1, 2, 3]
        assert [list(log.event(k).stack) for k in range(4)] == [list(range(k)) for k in range(4)]
        assert [log.event(k).details for k in range(4)] == [[("Thread ID", 9)]] * 4
    print("self test passed")
    return 0


def main(argv):
    import importlib
    import json
    import time
    import traceback
    import engine
    replay = None
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    args = list(argv)
    if "--tier" in args:
        k = args.index("--tier")
        tier = args[k + 1]
        del args[k:k + 2]
    if "--self-test" in args:
        return self_test()
    if "--replay" in args:
        k = args.index("--replay")
        replay = json.load(open(args[k + 1]))
        pid, tier = replay["property"], replay["tier"]
    else:
        pid = args[0]
    t0 = time.time()
    os.environ["VERIF_TIER_RUNNING"] = tier
    try:
        import procmon_parser
        assert os.path.abspath(procmon_parser.__file__).startswith(os.path.abspath(REPO) + os.sep), \
            procmon_parser.__file__
        props = {}
        for m in ("props_c", "props_l", "props_d", "props_f", "props_r", "props_x", "props_t", "props_i", "props_s", "props_m", "props_p"):
            if os.path.exists(os.path.join(HERE, "mc", m + ".py")):
                props.update(importlib.import_module(m).PROPS)
        scenarios, assumptions, bounds = props[pid]("thorough" if pid in DEEP else tier)
        if replay:
            return engine.replay(scenarios, replay)
        stats, viol, errs = engine.explore(scenarios)
        return engine.finish(pid, tier, scenarios, stats, viol, errs, t0, assumptions, bounds)
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    bootstrap()
    sys.exit(main(sys.argv[1:]))
