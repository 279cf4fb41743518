"""Driver shared by all checks: generation, parallel execution, confirmation, shrinking, replay files,
known findings and evidence.

A check module supplies `parts`: each part has
    gen(rng, i)   -> case: a JSON-able dict fully describing one test case (or None: nothing generated)
    test(case)    -> None if the property held, or a string saying what failed.  May return a tuple
                     (failure, info) where info is a dict; info["nontrivial"] (bool) and info["tags"] (list).
    shrink(case)  -> iterable of smaller cases (optional)
Cases of a part depend only on (VERIF_SEED, property, part, index).
"""
import argparse, hashlib, json, multiprocessing as mp, os, shutil, signal, sys, time, traceback, zlib
import numpy as np
from . import env, build, run

KNOWN = os.path.join(env.VERIF, "known_findings.json")


class Part:
    def __init__(self, name, gen, test, n, shrink=None, prepare=None, thorough=None, workers=None, weight=1.0, optional=False):
        """n: cases in the quick tier; thorough: cases in the thorough tier (default 30 n).
        prepare: builds what the part needs (run once, in the parent).
        optional: when prepare fails because a harness that uses internal interfaces does not compile
        any more, the part is skipped (and the evidence says so) instead of failing the check."""
        self.name, self.gen, self.test, self.n, self.shrink, self.prepare = name, gen, test, n, shrink, prepare
        self.thorough = thorough or 30 * n
        self.workers, self.weight, self.optional = workers, weight, optional


class Skip(Exception):
    """Raised by test() when the case turned out not to be usable (counted, not run)."""


def _rng(pid, part, i, seed):
    return np.random.default_rng([seed, zlib.crc32(("%s/%s" % (pid, part)).encode()), i])


_parts = {}
_pid = None


def _norm(r):
    if isinstance(r, tuple):
        return r[0], dict(r[1] or {})
    return r, {}


class Workdir:
    """Scratch directory of one test execution."""

    def __enter__(self):
        import tempfile
        self.d = tempfile.mkdtemp(prefix="c", dir=env.scratch())
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def _one(args):
    pname, i, seed = args
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    part = _parts[pname]
    t0 = time.time()
    case = None
    try:
        case = part.gen(_rng(_pid, pname, i, seed), i)
        if case is None:
            return dict(i=i, skipped=True, t=time.time() - t0)
        f, info = _norm(part.test(case))
        return dict(i=i, fail=f, info=info, case=case if (f or i < 3) else None, digest=digest(case), t=time.time() - t0)
    except Skip:
        return dict(i=i, skipped=True, t=time.time() - t0)
    except Exception:
        return dict(i=i, error=traceback.format_exc(), case=case, t=time.time() - t0)


def digest(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def brief(o, depth=0):
    """A case with long arrays abbreviated, for evidence samples."""
    if isinstance(o, dict):
        return {k: brief(v, depth + 1) for k, v in o.items()}
    if isinstance(o, list):
        if len(o) > 12:
            return [brief(x, depth + 1) for x in o[:4]] + ["... %d entries" % len(o)]
        return [brief(x, depth + 1) for x in o]
    if isinstance(o, str) and len(o) > 400:
        return o[:200] + "... %d chars" % len(o)
    return o


def known(pid):
    try:
        with open(KNOWN) as f:
            k = json.load(f)
    except FileNotFoundError:
        return []
    return [x for x in k.get("findings", []) if x["property"] == pid]


def safe_test(part, case):
    """Result of one execution: (failure or None, info)."""
    try:
        return _norm(part.test(case))
    except Skip:
        return None, {}


def confirm(part, case, times=2):
    """The failure must reproduce every time it is run on its own."""
    msg = None
    for _ in range(times):
        f, _i = safe_test(part, case)
        if not f:
            return None
        msg = f
    return msg


def do_shrink(part, case, msg, limit):
    if part.shrink is None:
        return case, msg, 0
    t0, steps, tried = time.time(), 0, 0
    progress = True
    orig = (case, msg)
    run.SCALE = 0.35
    while progress and time.time() - t0 < limit:
        progress = False
        for c in part.shrink(case):
            if time.time() - t0 >= limit:
                break
            tried += 1
            try:
                f, _i = safe_test(part, c)
            except Exception:
                continue
            if f:
                case, msg, progress, steps = c, f, True, steps + 1
                break
    run.SCALE = 1.0
    if steps:
        # the shrunk case must fail under the normal time limits too
        f, _i = safe_test(part, case)
        if not f:
            case, msg = orig
    return case, msg, tried


def write_replay(pid, part, case, msg):
    d = os.path.join(env.VERIF, "replays", pid)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (part.name, digest(case)))
    with open(path, "w") as f:
        json.dump(dict(property=pid, part=part.name, what=msg, case=case,
                       rerun="cd /verif && python3-vt checks/%s.py --replay %s" % (pid.lower(), path)), f)
    return path


def main(pid, parts, rule, level="exploration", assumptions=(), quick_cap=75, thorough_cap=1500, shrink_limit=60,
         workers=None):
    global _parts, _pid
    ap = argparse.ArgumentParser()
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=env.tier())
    ap.add_argument("--seed", type=int, default=env.seed())
    ap.add_argument("--cap", type=float)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--part")
    ap.add_argument("--prepare", action="store_true", help="only build")
    a = ap.parse_args()
    _pid, _parts = pid, {p.name: p for p in parts}
    t0 = time.time()
    env.scratch()
    skipped_parts = []
    if a.part:
        parts = [p for p in parts if p.name == a.part]
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        part = _parts[r["part"]]
        if part.prepare:
            part.prepare()
        f, info = safe_test(part, r["case"])
        print(f or "property held")
        if f:
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
        sys.exit(1 if f else 0)
    active = []
    for p in parts:
        try:
            if p.prepare:
                p.prepare()
            active.append(p)
        except build.BuildError as e:
            if not p.optional:
                print("BUILD FAILED in part %s\n%s" % (p.name, e))
                sys.exit(2)
            print("part %s skipped: its harness does not compile against this tree\n%s" % (p.name, str(e)[-1500:]))
            skipped_parts.append(p.name)
    if a.prepare:
        return
    tb = time.time() - t0
    quick = a.tier == "quick"
    cap = a.cap or (quick_cap if quick else thorough_cap)
    violations = 0
    # known findings: replay the listed inputs
    for k in known(pid):
        part = _parts.get(k["part"])
        if part is None or part not in active:
            continue
        f, _i = safe_test(part, k["case"])
        if f:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    kd = {(k["part"], digest(k["case"])) for k in known(pid)}
    stats, samples, tags, errors, flaky = {}, [], {}, [], 0
    evals = skips = 0
    distinct = set()
    fail = None
    nw = workers or min(8, os.cpu_count() or 4)
    ctx = mp.get_context("fork")
    totw = sum(p.weight for p in active)
    t1 = time.time()
    spent = 0.0
    left = totw
    for p in active:
        n = max(1, int((p.n if quick else p.thorough) * a.scale))
        budget = (cap - spent) * p.weight / left if left > 0 else 0
        left -= p.weight
        tp = time.time()
        cnt = 0
        extra = 0.0                                          # time spent on repeating failures
        done = set()
        while True:
            fail = None
            with ctx.Pool(p.workers or nw) as pool:
                it = pool.imap_unordered(_one, ((p.name, i, a.seed) for i in range(n) if i not in done))
                # imap feeds lazily only through its task queue; stop by terminating the pool
                while True:
                    try:
                        r = it.next(timeout=max(0.05, budget + extra - (time.time() - tp)) if cnt else 600)
                    except StopIteration:
                        break
                    except mp.TimeoutError:
                        break
                    done.add(r["i"])
                    if r.get("skipped"):
                        skips += 1
                        cnt += 1
                        continue
                    if r.get("error"):
                        errors.append((p.name, r["i"], r["error"], r.get("case")))
                        if len(errors) > 3:
                            break
                        continue
                    cnt += 1
                    evals += 1
                    info = r["info"]
                    if info.get("nontrivial", True):
                        distinct.add((p.name, r["digest"]))
                    for t in info.get("tags", ()):
                        tags["%s:%s" % (p.name, t)] = tags.get("%s:%s" % (p.name, t), 0) + 1
                    if r["case"] is not None and not r["fail"] and len([s for s in samples if s["part"] == p.name]) < 2:
                        samples.append(dict(part=p.name, index=r["i"], case=brief(r["case"])))
                    if r["fail"] and (p.name, r["digest"]) not in kd:
                        fail = (p, r["case"], r["fail"], r["i"])
                        break
                    if time.time() - tp > budget + extra:
                        break
                pool.terminate()
            if not fail:
                break
            part, case, msg, idx = fail
            tf = time.time()
            m = confirm(part, case)
            if m is None:
                # not reproducible every time: a time limit is only believed if it is exceeded in half of further runs,
                # anything else (crash, wrong result) if it is seen again
                slow = "timed_out=True" in msg
                k = t = 0
                tc = time.time()
                while t < (6 if slow else 10) and k < (3 if slow else 1) and time.time() - tc < 150:
                    f = safe_test(part, case)[0]
                    k += bool(f) and ("timed_out=True" in f) <= slow
                    t += 1
                if k >= (3 if slow else 1):
                    m = msg + " (intermittent: failed %d of %d repetitions)" % (k, t)
                extra = min(300, extra + time.time() - tf)
            if m is None:
                flaky += 1
                print("note: case %s/%d failed once and not when repeated: %s" % (part.name, idx, msg))
                fail = None
                if flaky >= 6 or time.time() - tp > budget + extra:
                    break
                continue
            print("FAILED %s/%d: %s" % (part.name, idx, m))
            sys.stdout.flush()
            case, m, tried = do_shrink(part, case, m, shrink_limit if quick else 4 * shrink_limit)
            path = write_replay(pid, part, case, m)
            print("shrunk (%d candidates tried): %s" % (tried, m))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            violations = 1
            break
        stats[p.name] = dict(executed=cnt, planned=n, wall_s=round(time.time() - tp, 1))
        spent = time.time() - t1
        if violations:
            break
        if len(errors) > 3:
            break
    # errors of the harness itself: retried on their own
    real_errors = []
    if not violations:
        for pn, i, tbk, case in errors:
            r = _one((pn, i, a.seed))
            if r.get("error"):
                real_errors.append((pn, i, r["error"]))
    cov = dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=rule, samples=samples, parts=stats,
               classes=dict(sorted(tags.items())), discarded=skips, unreproducible=flaky, build_s=round(tb, 1))
    if skipped_parts:
        cov["skipped_parts"] = skipped_parts
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(dict(property=pid, tier="quick" if quick else "thorough", seed=a.seed, level=level, coverage=cov,
                       assumptions=list(assumptions), wall_s=round(time.time() - t0, 2), violations=violations), f, indent=1)
    if not violations and not real_errors and evals < 5:
        print("ERROR: only %d cases were executed" % evals)
        sys.exit(2)
    if real_errors:
        for pn, i, t in real_errors:
            print("ERROR in %s/%d\n%s" % (pn, i, t))
        sys.exit(2)
    print("%s: %d cases, %d non-trivial, %d violations, %.1f s (build %.1f s) %s" %
          (pid, evals, len(distinct), violations, time.time() - t0, tb,
           " ".join("%s=%d/%d(%.0fs)" % (k, v["executed"], v["planned"], v["wall_s"]) for k, v in stats.items())))
    sys.exit(1 if violations else 0)
