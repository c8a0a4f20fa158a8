"""Entry point of every check:  run.py <PROPERTY> [--only REGEX]"""
import os, sys

os.environ.update(PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
                  MPLBACKEND="Agg", OPENMDAO_REPORTS="0", OPENMDAO_USE_MPI="0", TESTFLO_RUNNING="1")
if os.environ.get("PYTHONHASHSEED") != "0" or "PYTHONPATH" in os.environ or not sys.executable.startswith("/opt/venv"):
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ.pop("PYTHONPATH", None)
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import warnings

warnings.simplefilter("ignore")
import vlib

only = None
if "--only" in sys.argv:
    only = sys.argv[sys.argv.index("--only") + 1]
sys.exit(vlib.main(sys.argv[1], only))
