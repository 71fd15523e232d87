"""Process environment: which interpreter flags, where the code under test is, how z3 is loaded."""
import os
import sys
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
Z3_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ["CUDA_VISIBLE_DEVICES"] = ""
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "DUCC0_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
os.environ.setdefault(
    "XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
)
sys.dont_write_bytecode = True


def import_z3():
    """Import only the z3 package from the tools venv (its numpy must not shadow ours)."""
    if "z3" in sys.modules:
        return sys.modules["z3"]
    sys.path.append(Z3_SITE)
    try:
        import z3
    finally:
        sys.path.remove(Z3_SITE)
    return z3


def use_repo():
    """Make `import s2wav` resolve to the working tree under test."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")


def import_numeric():
    use_repo()
    import logging

    logging.disable(logging.WARNING)
    import jax

    jax.config.update("jax_enable_x64", True)
    import s2fft  # noqa: F401

    return jax
