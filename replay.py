#!/usr/bin/env python3
"""Runs a counterexample (or a batch of sampled paths) on the real code, without the engine.

    python replay.py FILE.json      exit 1 and print the failure if it fails, exit 0 otherwise
    python replay.py --batch FILE   one JSON verdict per line
"""
import importlib
import json
import os
import resource
import signal
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BINOBJ_REPO", "/repo")


class Timeout(BaseException):
    pass


def run_item(mod, item, tier, seconds):
    from engine import rt
    cases = rt.CASES[mod]
    fn, cfgs, thorough = cases[item["case"]]
    use = cfgs + thorough if thorough is not None else cfgs
    r = rt.ConcreteRT(item["inputs"], item["choices"], tier)

    def alarm(_s, _f):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        fn(r, use[item["cfg"]])
        return {"verdict": "pass", "observed": [list(x) for x in r.observed]}
    except rt.AssumeFalse:
        return {"verdict": "assume_false", "message": "inputs violate an assumption"}
    except rt.HarnessFail as e:
        return {"verdict": "fail", "message": str(e)}
    except Timeout:
        return {"verdict": "hang", "message": f"no answer after {seconds} s"}
    except Exception as e:  # noqa: BLE001
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-4:]))
        return {"verdict": "exception", "message": f"{type(e).__name__}: {str(e)[:300]} at {where}"}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def main():
    if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("TZ") != "UTC":
        py = "/opt/venv/bin/python"
        py = py if os.path.exists(py) else sys.executable
        os.execve(py, [py, *sys.argv], {**os.environ, "PYTHONHASHSEED": "0", "TZ": "UTC",
                                        "PYTHONDONTWRITEBYTECODE": "1"})
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    sys.path[:0] = [REPO, ROOT, os.path.join(ROOT, "harness")]
    import importlib.metadata as md
    real = md.version

    def version(name):
        try:
            return real(name)
        except md.PackageNotFoundError:
            if name == "binobj":
                return "0.0.0"
            raise
    md.version = version
    batch = sys.argv[1] == "--batch"
    with open(sys.argv[-1]) as fh:
        d = json.load(fh)
    importlib.import_module(d["module"])
    if batch:
        for item in d["items"]:
            sys.stdout.flush()
            pid = os.fork()      # each item in a process of its own: no state is carried over
            if pid == 0:
                code = 1
                try:
                    line = json.dumps(run_item(d["module"], item, d["tier"], d["per_item_s"]))
                    print(line)
                    sys.stdout.flush()
                    code = 0
                finally:
                    os._exit(code)
            _, status = os.waitpid(pid, 0)
            if status:
                print(json.dumps({"verdict": "exception", "message": f"process died with status {status}"}))
        return 0
    v = run_item(d["module"], d["item"], d["tier"], 60)
    print(f"property {d['property']}: {d['message']}")
    print(json.dumps(d["item"]))
    print("real code:", json.dumps(v))
    return 1 if v["verdict"] in ("fail", "exception", "hang") else 0


if __name__ == "__main__":
    sys.exit(main())
