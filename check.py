"""Entry point.  check.py PROPERTY | replay FILE | selftest ...   (see DESIGN.md)"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
WANT = {
    "PYTHONHASHSEED": os.environ.get("DST_HASHSEED", "0"),
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "NUMBA_DISABLE_JIT": "1",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONWARNINGS": "ignore",
    "TZ": "UTC",
    "LC_ALL": "C.UTF-8",
    "MPLCONFIGDIR": "/tmp/dst-mpl",
}
PY = "/opt/venv/bin/python"

if any(os.environ.get(k) != v for k, v in WANT.items()) or os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    if os.environ.get("DST_REEXEC") != "1":
        env = {**os.environ, **WANT, "DST_REEXEC": "1"}
        env.pop("PYTHONPATH", None)
        os.execve(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from dst import main  # noqa

sys.exit(main.main(sys.argv[1:]))
