#!/opt/venv/bin/python
"""Runner: check.py <PROPERTY> [--tier quick|thorough] [--replay FILE]"""
import os
import sys

FIX = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "RAY_USAGE_STATS_ENABLED": "0",
       "TQDM_DISABLE": "1", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
       "NUMBA_NUM_THREADS": "1"}
PY = "/opt/venv/bin/python"
if any(os.environ.get(k) != v for k, v in FIX.items()) or os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.environ.update(FIX)
    os.execv(PY, [PY, os.path.abspath(__file__), *sys.argv[1:]])

import argparse  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402
import logging  # noqa: E402
import shutil  # noqa: E402
import tempfile  # noqa: E402
import traceback  # noqa: E402
import warnings  # noqa: E402

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo/src")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--show", action="store_true", help="do not silence the code under test")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    only = None
    if a.replay:
        with open(a.replay) as f:
            only = json.load(f)["case"]
    real_out = os.fdopen(os.dup(1), "w")
    scratch = tempfile.mkdtemp(prefix="vp_chk_")
    os.chdir(scratch)
    if not a.show:
        dn = os.open(os.devnull, os.O_WRONLY)
        sys.stdout.flush()
        os.dup2(dn, 1)
        if not os.environ.get("VP_STDERR"):
            os.dup2(dn, 2)
    from vlib import core, fakeray

    rc = 2
    ctx = core.Ctx(a.prop, a.tier, seed, real_out, only)
    try:
        fakeray.install()
        import rxn_network

        assert rxn_network.__path__[0].startswith("/repo/src"), rxn_network.__path__
        mod = importlib.import_module(f"checks.{a.prop.lower()}")
        try:
            mod.run(ctx)
        except core.StopCheck:
            ctx.cap("stopped after enough violations")
        rc = ctx.finish(mod.RULE, assumptions=getattr(mod, "ASSUMPTIONS", ()))
    except Exception as e:  # noqa: BLE001
        tb = traceback.format_exc()
        last = [ln for ln in tb.splitlines() if ln.strip().startswith("File ")]
        in_repo = any("/repo/src/rxn_network" in ln for ln in last[-12:]) or "rxn_network" in tb
        # results of a shape the harness cannot handle come from the code under test as well
        in_repo = in_repo or (isinstance(e, (TypeError, AttributeError, LookupError, ValueError, ArithmeticError, RuntimeError))
                              and "worker died" not in tb and "MemoryError" not in tb)
        if in_repo and not ctx.viol:
            ctx.viol[f"code under test fails or gives unusable results: {tb.strip().splitlines()[-1][:200]}"] = {
                "case": ctx.cur_case, "detail": tb[-4000:]}
        print(tb, file=real_out)
        if ctx.viol:
            rc = ctx.finish("run aborted by an exception", exhaustive=False)
        real_out.flush()
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    real_out.flush()
    os._exit(rc)


main()
