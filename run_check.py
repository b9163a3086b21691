#!/opt/venv/bin/python
"""Entry point:  run_check.py C01 [--tier quick|thorough] [--only HARNESS] [-v]
                 run_check.py --replay FILE        re-run recorded counterexamples on the unmodified code
"""
import os
import sys

PY = "/opt/venv/bin/python"
ENV = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "TZ": "UTC", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
if any(os.environ.get(k) != v for k, v in ENV.items()) or os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.environ.update(ENV)
    os.execv(PY, [PY, *sys.argv])

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.environ.get("ECALC_SRC", "/repo/src")
sys.path.insert(0, HERE)
sys.path.insert(0, SRC)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import argparse  # noqa: E402
import json  # noqa: E402
import logging  # noqa: E402
import warnings  # noqa: E402

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--replay")
    ap.add_argument("--replay-server")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.setrecursionlimit(5000)
    from engine import runner

    if a.selftest:
        import z3
        from engine import loader

        loader.install()
        import libecalc.common.utils.rates  # noqa: F401

        x = z3.Real("x")
        s = z3.Solver()
        s.add(x * x < 0)
        assert s.check() == z3.unsat
        print("ok: z3", z3.get_version_string(), "source", SRC)
        return 0
    if a.replay_server:
        runner.replay_server(a.replay_server, a.tier)
        return 0
    if a.replay:
        import importlib

        rec = json.load(open(a.replay))
        mod = importlib.import_module(f"checks.{rec['property'].lower()}")
        bad = 0
        for v in rec["violations"]:
            out = runner.replay_one(mod, v["harness"], v["inputs"], v["tier"])
            print(json.dumps({"harness": v["harness"], "inputs": v["inputs"], "result": out}, indent=1))
            bad |= bool(runner.violating(out))
        return 1 if bad else 0
    return runner.run_check(a.property, a.tier, seed, a.only, a.jobs, a.v)


if __name__ == "__main__":
    sys.exit(main())
