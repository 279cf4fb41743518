"""Environment for running MPI programs of the repository, scratch directories and paths."""
import atexit, os, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
PY = "python3-vt"

_scratch = None


def scratch():
    """One scratch directory per check process, removed at exit."""
    global _scratch
    if _scratch is None:
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) and _free("/dev/shm") > 2 << 30 else "/tmp"
        _scratch = tempfile.mkdtemp(prefix="vt", dir=base)
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
    return _scratch


def _free(p):
    s = os.statvfs(p)
    return s.f_bavail * s.f_frsize


def mpi_env(threads=1, extra=None, tmp=None):
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(("OMPI_", "PMIX_", "OMP_", "VT_"))}
    e.update(
        PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", LANG="C.UTF-8",
        OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
        OMPI_MCA_btl="self,vader", OMPI_MCA_pml="ob1", OMPI_MCA_plm="isolated",
        OMPI_MCA_btl_vader_single_copy_mechanism="none",
        OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none",
        OMPI_MCA_mpi_yield_when_idle="1", OMP_WAIT_POLICY="passive", OPENBLAS_NUM_THREADS="1",
        OMPI_CXX="g++", OMPI_CC="gcc", OMP_NUM_THREADS=str(threads), OMP_DYNAMIC="false",
        TMPDIR=tmp or "/tmp")
    if extra:
        e.update({k: str(v) for k, v in extra.items()})
    return e


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def tier():
    t = os.environ.get("VERIF_TIER", "quick")
    return t if t in ("quick", "thorough") else "quick"
