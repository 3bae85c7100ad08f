"""run.py PID [--tier quick|thorough] [--replay FILE] [--task GLOB] [-v] [-t]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
WANT = {"PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1",
        # memory handed out by malloc is filled, so that reading it uninitialised does the same in every run
        "MALLOC_PERTURB_": "128"}
if any(os.environ.get(k) != v for k, v in WANT.items()):
    os.environ.update(WANT)
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path[:0] = [os.path.join(os.path.dirname(HERE), "lib"), HERE]
import mmbuild  # noqa: E402

mmbuild.install()
import core  # noqa: E402
import importlib  # noqa: E402

try:
    mod = importlib.import_module(sys.argv[1].lower())
except Exception:
    import traceback
    import types

    if not traceback.extract_tb(sys.exc_info()[2])[-1].filename.startswith(mmbuild.REPO + os.sep):
        raise
    text = traceback.format_exc()

    def t_import(ctx):
        raise RuntimeError("the code under check cannot be imported\n" + text)

    mod = types.SimpleNamespace(PID=sys.argv[1].upper(), ASSUMPTIONS=["the modules under check can be imported"], BOUNDS={"import": "the modules the check uses"},
                                tasks=lambda tier: [("import", t_import, ())])
sys.exit(core.main(mod, sys.argv[2:]))
