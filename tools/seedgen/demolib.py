"""Helpers of the demonstrations.  The working directory is the repository, built."""
import atexit, os, shutil, subprocess, sys, tempfile
import numpy as np
import mesh as M
import ref as R

REPO = os.getcwd()
TMP = tempfile.mkdtemp(prefix="demo", dir="/tmp")
atexit.register(shutil.rmtree, TMP, True)
DECK = dict(snOrder=2, iterMax=200, errMax=1e-12, maxCellsPerStep=10, intraAngleP=0, interAngleP=0, nGroups=1,
            sigmaT1=1.0, sigmaS1=0.0, sigmaT2=1.0, sigmaS2=0.0, OutputFile="true", OutputFilename="psi.out",
            SourceIteration="true", MPIType="TychoTwoSided", DD_IterMax=200, DD_ErrMax=1e-12,
            SweepType="TraverseGraph", GaussElim="Original")


def env(threads=1, extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("OMPI_", "PMIX_", "OMP_"))}
    e.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader", OMPI_MCA_pml="ob1",
             OMPI_MCA_plm="isolated", OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_rmaps_base_oversubscribe="1",
             OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_mpi_yield_when_idle="1", OMP_WAIT_POLICY="passive",
             OMP_NUM_THREADS=str(threads), TMPDIR=TMP)
    e.update(extra or {})
    return e


def fail(msg):
    print("FAIL: " + msg)
    sys.exit(1)


def sh(cmd, threads=1, timeout=100, extra=None):
    """Runs a command in the scratch directory: (return code or None on a hang, output)."""
    p = subprocess.Popen([str(x) for x in cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=TMP,
                         env=env(threads, extra), start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return None, "timed out"


def deck_file(text):
    p = TMP + "/in.deck"
    open(p, "w").write(text)
    return p


def deck(**kw):
    d = dict(DECK)
    d.update(kw)
    return d, deck_file("".join("%s %s\n" % x for x in d.items()))


def sweep(pmesh, nproc=1, threads=1, timeout=100, extra=None, text=None, **kw):
    """Runs the solver: (return code, output, flux [cell, angle, vertex, group] or None)."""
    d, p = deck(**kw)
    if text is not None:
        p = deck_file(text)
    f = TMP + "/" + d["OutputFilename"]
    rc, o = sh(["mpirun", "-n", nproc, REPO + "/sweep.x", pmesh, p], threads, timeout, extra)
    psi = None
    if rc == 0 and os.path.exists(f):
        psi = M.parse_psi(open(f, "rb").read())
    return rc, o, psi


def tool(name, *args, timeout=200):
    return sh([REPO + "/util/" + name] + list(args), timeout=timeout)


def write_parts(m, part, nparts, rng=None, flip=False, name="m.pmesh"):
    p = TMP + "/" + name
    M.write_pmesh(M.split(m, np.asarray(part), nparts, rng, flip_nodes=flip), p)
    return p


def sigmas(m, d):
    one = m.mats == 1
    return np.where(one, d["sigmaT1"], d["sigmaT2"]), np.where(one, d["sigmaS1"], d["sigmaS2"])


def expected(m, d):
    """The solution for the repository's test source, from the reference implementation."""
    t, s = sigmas(m, d)
    pr = R.Problem(m, d["snOrder"], t, s)
    q = R.hat_source(m, pr.om, t, s, d["nGroups"])
    return pr.solve(q)


def check_flux(m, part, nparts, tol=1e-8, threads=1, rng=None, flip=False, timeout=100, extra=None, **kw):
    d = dict(DECK)
    d.update(kw)
    want = expected(m, d)
    rc, o, psi = sweep(write_parts(m, part, nparts, rng, flip), nparts, threads, timeout, extra, **kw)
    if psi is None:
        fail("no flux: exit %s: %s" % (rc, o[-300:]))
    e = np.abs(psi - want).max() / np.abs(want).max()
    print("largest difference %g of the largest flux" % e)
    if not e < tol:
        fail("the flux is not the solution of the equations")
    return o


def cxx(src, name="h.x", defs=(), filedefs={}, exclude=("Main.cc",), shared=False):
    """Compiles a small program against the repository's sources."""
    p = TMP + "/" + name
    s = TMP + "/" + name + ".cc"
    open(s, "w").write(src)
    files = [REPO + "/src/" + f for f in sorted(os.listdir(REPO + "/src")) if f.endswith(".cc") and f not in exclude]
    flags = ["-std=c++11", "-O2", "-fopenmp", "-include", "cstdint", "-DASSERT_ON=1", "-DUSE_PETSC=1", "-I" + REPO + "/src",
             "-I/usr/lib/petsc/include", "-w"] + ["-D" + x for x in defs]
    procs = []
    outs = []
    for i, f in enumerate([s] + files):
        outs.append(TMP + "/o%d.o" % i)
        procs.append(subprocess.Popen(["mpicxx"] + flags + filedefs.get(os.path.basename(f), []) + ["-c", f, "-o", outs[-1]]))
    if any(q.wait() for q in procs):
        fail("the demonstration does not compile")
    if subprocess.call(["mpicxx", "-fopenmp"] + outs + ["-o", p, "-L/usr/lib/petsc/lib", "-lpetsc_real"]):
        fail("the demonstration does not link")
    return p


def preload(src):
    """Compiles a library for LD_PRELOAD."""
    s = TMP + "/pre.cc"
    open(s, "w").write(src)
    if subprocess.call(["mpicxx", "-std=c++11", "-O1", "-fPIC", "-shared", "-w", s, "-o", TMP + "/pre.so"]):
        fail("the demonstration does not compile")
    return TMP + "/pre.so"


LATE_SENDS = r'''
// Sends take their data when the process next waits or receives: the standard allows it, buffers belong to MPI until then.
#include <mpi.h>
#include <vector>
static std::vector<MPI_Request> late;
static void go() { for (auto &r : late) PMPI_Start(&r); late.clear(); }
extern "C" {
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r)
{ int e = PMPI_Send_init(b, n, t, d, tag, c, r); late.push_back(*r); return e; }
int MPI_Waitany(int n, MPI_Request *r, int *i, MPI_Status *s) { go(); return PMPI_Waitany(n, r, i, s); }
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *s) { go(); return PMPI_Waitall(n, r, s); }
int MPI_Testall(int n, MPI_Request *r, int *f, MPI_Status *s) { go(); return PMPI_Testall(n, r, f, s); }
int MPI_Wait(MPI_Request *r, MPI_Status *s) { go(); return PMPI_Wait(r, s); }
int MPI_Recv(void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Status *s) { go(); return PMPI_Recv(b, n, t, d, tag, c, s); }
int MPI_Iprobe(int d, int tag, MPI_Comm c, int *f, MPI_Status *s) { go(); return PMPI_Iprobe(d, tag, c, f, s); }
int MPI_Barrier(MPI_Comm c) { go(); return PMPI_Barrier(c); }
int MPI_Allreduce(const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { go(); return PMPI_Allreduce(a, b, n, t, o, c); }
}
'''
