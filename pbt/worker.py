"""
Execution side of the framework (runs under the repository's own interpreter).

Reads one JSON request per line on stdin: {"fn": "<module>:<function>", "case": <json>}
and answers with one JSON line:
    {"status": "ok", "nontrivial": bool, "labels": [...], "weight": int}
    {"status": "fail", "msg": "...", "sig": "..."}
    {"status": "skip"}                    case outside the domain of the property
    {"status": "error", "msg": "..."}     the harness itself is at fault

It never imports Hypothesis: the case is plain data, so a replay needs nothing but this file.
"""
import importlib
import json
import os
import signal
import sys
import traceback
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
CPU_LIMIT = float(os.environ.get("VERIF_CASE_CPU", "60"))


class HangError(BaseException):
    pass


def _on_alarm(signum, frame):
    raise HangError()


def _setup():
    proto = os.fdopen(os.dup(1), "w", buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_WORKER_STDERR"):
        os.dup2(devnull, 2)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    except Exception:
        pass
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    if os.environ.get("VERIF_WORKER_MODE") == "bench":
        sys.path.insert(0, os.path.join(REPO, "benchmark"))
    # third party modules may come from their caches, the code under test never does
    import numpy  # noqa
    if os.environ.get("VERIF_WORKER_MODE") != "bench":
        import pandas  # noqa
    sys.pycache_prefix = "/nonexistent-verif-pycache"
    sys.dont_write_bytecode = True
    signal.signal(signal.SIGVTALRM, _on_alarm)
    return proto


def _in_repo(tb):
    root = os.path.realpath(REPO) + os.sep
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(root):
            return True
        tb = tb.tb_next
    return False


def _where(tb):
    """innermost frame inside the repository, as 'file:function' (no line numbers)"""
    root = os.path.realpath(REPO) + os.sep
    res = "?"
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(root):
            res = f"{fn[len(root):]}:{tb.tb_frame.f_code.co_name}"
        tb = tb.tb_next
    return res


def run_case(fnname, case):
    from oracles.base import Violation, Skip
    modname, fname = fnname.split(":")
    mod = importlib.import_module("oracles." + modname)
    fn = getattr(mod, fname)
    try:
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
        try:
            res = fn(case) or {}
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Violation as e:
        return {"status": "fail", "msg": str(e)[:4000], "sig": e.sig}
    except Skip:
        return {"status": "skip"}
    except HangError:
        return {"status": "fail", "hang": True, "sig": "hang",
                "msg": f"no result within {CPU_LIMIT} CPU seconds"}
    except BaseException as e:
        tb = e.__traceback__
        txt = "".join(traceback.format_exception(type(e), e, tb))[-3000:]
        if _in_repo(tb):
            return {"status": "fail", "sig": f"exc:{type(e).__name__}@{_where(tb)}",
                    "msg": f"unexpected exception from the code under test\n{txt}"}
        if isinstance(e, (MemoryError, KeyboardInterrupt, SystemExit, ImportError)):
            return {"status": "error", "msg": txt}
        # the oracle could not even read the answer: not of the documented shape
        return {"status": "fail", "sig": f"shape:{type(e).__name__}", "msg": f"the result is not of the documented shape\n{txt}"}
    out = {"status": "ok", "nontrivial": bool(res.get("nontrivial", True)),
           "labels": list(res.get("labels", [])), "n": int(res.get("n", 1))}
    return out


def main():
    proto = _setup()
    try:
        import oracles.base  # noqa
    except BaseException:
        proto.write(json.dumps({"status": "error", "msg": traceback.format_exc()}) + "\n")
        return
    proto.write(json.dumps({"status": "ready"}) + "\n")
    while True:
        line = sys.stdin.readline()
        if not line:
            return
        req = json.loads(line)
        if req.get("warm"):
            try:                # an import that fails is reported with the first case
                importlib.import_module("oracles." + req["fn"].split(":")[0])
            except BaseException:
                pass
            proto.write(json.dumps({"status": "ready"}) + "\n")
            continue
        try:
            res = run_case(req["fn"], req["case"])
        except BaseException:
            res = {"status": "error", "msg": traceback.format_exc()[-3000:]}
        proto.write(json.dumps(res) + "\n")


if __name__ == "__main__":
    main()
