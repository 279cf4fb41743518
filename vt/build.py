"""Builds the repository's sources, plus a harness, into a cache keyed by their contents.

Nothing is written inside /repo.  The cache lives in /verif/.build (ignored by git); it only
saves time: every key contains the text of the sources, of all headers and of the flags.
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time
from . import env

CACHE = os.path.join(env.VERIF, ".build")
PETSC_INC = ["-I/usr/lib/petsc/include"]
PETSC_LIB = ["-L/usr/lib/petsc/lib", "-lpetsc_real"]
BASE = ["-std=c++11", "-fopenmp", "-include", "cstdint", "-DASSERT_ON=1", "-DUSE_PETSC=1",
        "-DVT_HARNESS=1", "-w"]


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        m.update(hashlib.sha256(p).digest())
    return m.hexdigest()[:24]


def _cc(cmd, out):
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(cmd + ["-o", tmp], env=env.mpi_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))
    os.replace(tmp, out)


def _lock():
    os.makedirs(CACHE, exist_ok=True)
    f = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def _touch(p):
    try:
        os.utime(p)
    except OSError:
        pass


def prune(max_bytes=600 << 20):
    """Keep the cache small."""
    files = []
    for d in ("obj", "bin"):
        for p in glob.glob(os.path.join(CACHE, d, "*")):
            st = os.stat(p)
            files.append((st.st_mtime, st.st_size, p))
    total = sum(x[1] for x in files)
    for mt, sz, p in sorted(files):
        if total <= max_bytes:
            break
        os.unlink(p)
        total -= sz


def headers(incdir):
    hs = sorted(glob.glob(os.path.join(incdir, "*.hh")) + glob.glob(os.path.join(incdir, "*.h")) +
                glob.glob(os.path.join(env.HARNESS, "*.hh")))
    return b"".join(os.path.basename(h).encode() + b"\0" + _read(h) for h in hs)


def build(name, sources, flags=(), link=(), opt="-O2", compiler="mpicxx", incdirs=None, base=None,
          objflags=None):
    """Compile sources (absolute paths) and link them.  Returns the path of the binary."""
    src = os.path.join(env.REPO, "src")
    incs = ["-I" + d for d in (incdirs or [src])] + ["-I" + env.HARNESS] + PETSC_INC
    base = list(BASE if base is None else base)
    hd = headers(src)
    allflags = [opt] + base + list(flags) + incs
    with _lock():
        for d in ("obj", "bin"):
            os.makedirs(os.path.join(CACHE, d), exist_ok=True)
        objs, todo = [], []
        for s in sources:
            of = allflags + list((objflags or {}).get(s, ()))
            key = _h(_read(s), hd, " ".join(of), compiler, os.path.basename(s))
            o = os.path.join(CACHE, "obj", key + ".o")
            objs.append(o)
            if os.path.exists(o):
                _touch(o)
            else:
                todo.append(([compiler] + of + ["-c", s], o))
        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            for f in [ex.submit(_cc, c, o) for c, o in todo]:
                f.result()
        link = list(link)
        bkey = _h(" ".join(objs), " ".join(link), opt, compiler)
        b = os.path.join(CACHE, "bin", "%s-%s" % (name, bkey))
        if os.path.exists(b):
            _touch(b)
        else:
            _cc([compiler, opt] + [f for f in base + list(flags) if f.startswith("-f")] + objs + link, b)
        prune()
    # a private copy, so that pruning or rebuilding by another check cannot remove it
    d = os.path.join(env.scratch(), "bin")
    os.makedirs(d, exist_ok=True)
    dst = os.path.join(d, os.path.basename(b))
    if not os.path.exists(dst):
        shutil.copy2(b, dst)
    return dst


def repo_sources(exclude=()):
    s = sorted(glob.glob(os.path.join(env.REPO, "src", "*.cc")))
    return [p for p in s if os.path.basename(p) not in exclude]


SAN = ["-fsanitize=address,undefined", "-D_GLIBCXX_ASSERTIONS", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer", "-g1"]

# Mangled name of the function that supplies the fixed source; replaced at link time (--wrap) so
# that a check can drive the solver with arbitrary sources.
WRAPS = ["_ZN7Problem9getSourceER7PsiData",
         "_ZN7PsiData11writeToFileERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"]


def sweep(san=False, pmpi=False, opt=None):
    """sweep.x with the problem-data wrapper (harness/wrap_problem.cc) linked in."""
    srcs = repo_sources() + [os.path.join(env.HARNESS, "wrap_problem.cc")]
    if pmpi:
        srcs.append(os.path.join(env.HARNESS, "pmpi.cc"))
    fl = SAN if san else []
    return build("sweep" + ("-san" if san else "") + ("-pmpi" if pmpi else ""), srcs, flags=fl,
                 link=["-Wl,--wrap=" + w for w in WRAPS] + PETSC_LIB + (["-ldl"] if pmpi else []),
                 opt=opt or ("-O1" if san else "-O2"))


def plain_sweep():
    """sweep.x exactly as the project builds it (same optimisation level), no wrapper."""
    return build("sweepx", repo_sources(), link=PETSC_LIB, opt="-O3")


def harness(name, san=False, petsc=True, extra=(), exclude=("Main.cc",)):
    """harness/<name>.cc linked with the repository's sources without Main.cc."""
    fl = list(SAN if san else []) + list(extra)
    return build(name, repo_sources(exclude) + [os.path.join(env.HARNESS, name + ".cc")], flags=fl,
                 link=PETSC_LIB, opt="-O1")


UTIL_BASE = ["-std=c++11", "-include", "cstdint", "-w"]


def util(name, san=False):
    u = os.path.join(env.REPO, "util", name + ".cc")
    s = os.path.join(env.REPO, "src")
    srcs = [os.path.join(s, "SerialMesh.cc"), os.path.join(s, "ParallelMesh.cc")]
    base = list(UTIL_BASE)
    if name == "ParallelMeshInfo":
        srcs += [os.path.join(s, "Comm.cc"), os.path.join(s, "Assert.cc")]
    else:
        base.append("-DPARALLEL_MESH_READ_SERIAL_ONLY")
    # RefineSerialMesh includes "../src/SerialMesh.hh" relative to itself
    return build(name, srcs + [u], flags=SAN if san else [], base=base, opt="-O1",
                 incdirs=[s, "/usr/include"], link=["-lmetis"] if name == "PartitionMetis" else [])


def mesh_harness(name, san=False):
    """Harness using only the mesh classes, serial reader."""
    s = os.path.join(env.REPO, "src")
    srcs = [os.path.join(s, "SerialMesh.cc"), os.path.join(s, "ParallelMesh.cc"),
            os.path.join(env.HARNESS, name + ".cc")]
    return build(name, srcs, flags=SAN if san else [], base=UTIL_BASE + ["-DPARALLEL_MESH_READ_SERIAL_ONLY"],
                 opt="-O1")
