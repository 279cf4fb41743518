"""Running programs with time limits; classifying what happened."""
import ctypes, os, signal, subprocess, time
from . import env

SCALE = 1.0          # multiplies every time limit (reduced while shrinking)
_libc = ctypes.CDLL(None, use_errno=True)


def _die_with_parent():
    _libc.prctl(1, signal.SIGTERM, 0, 0, 0)


class Result:
    def __init__(self, rc, out, err, timed_out, wall):
        self.rc, self.out, self.err, self.timed_out, self.wall = rc, out, err, timed_out, wall

    @property
    def ok(self):
        return self.rc == 0 and not self.timed_out

    def tail(self, n=1500):
        return ("rc=%s timed_out=%s wall=%.1f\n--- stdout ---\n%s\n--- stderr ---\n%s" %
                (self.rc, self.timed_out, self.wall, self.out[-n:], self.err[-n:]))


def run(cmd, timeout=60, cwd=None, envd=None, stdin=None):
    t0 = time.time()
    timeout = timeout * SCALE
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd,
                         env=envd or env.mpi_env(), start_new_session=True, preexec_fn=_die_with_parent)
    to = False
    try:
        o, e = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        for s, w in ((signal.SIGTERM, 3), (signal.SIGKILL, 5)):
            try:
                os.killpg(p.pid, s)
            except ProcessLookupError:
                pass
            try:
                o, e = p.communicate(timeout=w)
                break
            except subprocess.TimeoutExpired:
                o, e = b"", b""
    return Result(p.returncode, o.decode(errors="replace"), e.decode(errors="replace"), to, time.time() - t0)


INFRA = ("ORTE has lost communication", "unable to reliably start", "There are not enough slots",
         "ORTE was unable", "A request was made to bind", "It looks like orte_init failed",
         "It looks like MPI_INIT failed", "PMIX ERROR: ERROR", "No space left on device", "Resource temporarily unavailable",
         "Cannot allocate memory", "unable to create a session directory", "pmix server init failed")


def mpirun(n, cmd, threads=1, timeout=60, cwd=None, extra=None, retries=2, singleton=False):
    """mpirun -n n cmd, in its own session directory; retried when the launcher itself fails."""
    for k in range(retries + 1):
        d = cwd or env.scratch()
        e = env.mpi_env(threads, extra, tmp=env.scratch())
        if n == 1 and singleton:
            full = list(cmd)
        else:
            full = ["mpirun", "--oversubscribe", "-n", str(n)] + list(cmd)
        r = run(full, timeout=timeout, cwd=d, envd=e)
        if r.rc != 0 and not r.timed_out and any(s in r.err or s in r.out for s in INFRA) and k < retries:
            time.sleep(0.5 * (k + 1))
            continue
        return r
    return r
