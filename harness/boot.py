"""Import bootstrap: the interpreter is /opt/venv/bin/python (numpy, flopy, ...),
hypothesis comes from the offline tooling venv, dany from /repo's working tree."""
import glob
import os
import sys
import tempfile
import warnings

sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")

SCRATCH = os.environ.get("DANY_VERIF_SCRATCH")
if not SCRATCH:
    SCRATCH = tempfile.mkdtemp(prefix="danyverif_")
    os.environ["DANY_VERIF_SCRATCH"] = SCRATCH
    OWN_SCRATCH = True
else:
    OWN_SCRATCH = False
os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(SCRATCH, "hyp")
os.environ["MPLCONFIGDIR"] = os.path.join(SCRATCH, "mpl")

REPO = os.environ.get("DANY_VERIF_REPO", "/repo")


def _add_hypothesis():
    try:
        import hypothesis  # noqa: F401

        return
    except ImportError:
        pass
    for p in sorted(glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages")):
        sys.path.append(p)
        try:
            import hypothesis  # noqa: F401

            return
        except ImportError:
            sys.path.remove(p)
    # last resort: unpack the offline wheels
    import zipfile

    tgt = os.path.join(SCRATCH, "wheels")
    os.makedirs(tgt, exist_ok=True)
    tag = f"cp3{sys.version_info[1]}"
    for w in glob.glob("/opt/veriftools/wheels/*.whl"):
        b = os.path.basename(w)
        if b.startswith("sortedcontainers") or (
            b.startswith("hypothesis-") and tag in b
        ):
            zipfile.ZipFile(w).extractall(tgt)
    sys.path.append(tgt)
    import hypothesis  # noqa: F401


warnings.simplefilter("ignore")
import numpy  # noqa: E402,F401
import flopy  # noqa: E402,F401
import flopy.modflow  # noqa: E402,F401
import flopy.discretization  # noqa: E402,F401
import flopy.utils.geospatial_utils  # noqa: E402,F401
import flopy.plot.plotutil  # noqa: E402,F401

_add_hypothesis()

# compile dany from source every time: a stale __pycache__ must never be used
_prefix = sys.pycache_prefix
sys.pycache_prefix = os.path.join(SCRATCH, "pyc")
sys.path.insert(0, REPO)
import dany  # noqa: E402
import dany.dem_conditioning  # noqa: E402,F401
import dany.flow_directions  # noqa: E402,F401
import dany.stream_util  # noqa: E402,F401

sys.pycache_prefix = _prefix
if os.path.realpath(os.path.dirname(os.path.dirname(dany.__file__))) != os.path.realpath(REPO):
    raise SystemExit(f"harness error: dany imported from {dany.__file__}")
warnings.simplefilter("ignore")
numpy.seterr(all="ignore")
