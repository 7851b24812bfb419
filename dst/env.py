"""Process set-up shared by every entry point.  Import this first."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
KYM = os.path.join(REPO, "kymatio") + os.sep
PY = "/opt/venv/bin/python"

FIXED_ENV = {
    "PIP_NO_INDEX": "1", "PYTHONDONTWRITEBYTECODE": "1",
    "CUDA_VISIBLE_DEVICES": "", "JAX_PLATFORMS": "cpu", "TF_CPP_MIN_LOG_LEVEL": "3", "KERAS_BACKEND": "tensorflow",
    "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
    "TF_NUM_INTRAOP_THREADS": "1", "TF_NUM_INTEROP_THREADS": "1", "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false",
    "TF_ENABLE_ONEDNN_OPTS": "0", "JAX_DISABLE_MOST_OPTIMIZATIONS": "1",
}


def setup():
    for k, v in FIXED_ENV.items():
        os.environ[k] = v
    for k in ("KYMATIO_BACKEND", "KYMATIO_CACHE", "PYTHONPATH"):
        os.environ.pop(k, None)
    sys.dont_write_bytecode = True
    if sys.path[0:1] != [REPO]:
        sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.append(VERIF)


setup()
