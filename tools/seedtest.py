#!/usr/bin/env python3
"""seedtest.py [-t] [-c] [-C CHECK] id...: tries planted bugs in scratch copies of /repo (mounted over /repo in a private namespace).
-t: run the stable tests as well, -c: run the property's check, -C: run these checks (comma separated) instead."""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(root, cmd, timeout):
    try:
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && { %s\n}" % (root, cmd)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace")


def one(bug, tests, check, others):
    d = os.path.join(V, "seeded", bug)
    meta = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    out = []
    try:
        clean, bad, demo = w + "/clean", w + "/bad", w + "/demo"
        subprocess.run(["cp", "-a", "/repo", clean], check=True)
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        r, o = sh(clean, "bash /opt/vp/build.sh >/dev/null 2>&1 && bash %s/demo.sh" % demo, 400)
        out.append("demo clean %d%s" % (r, "" if r == 0 else " **WRONG** " + o[-1500:]))
        shutil.copytree(clean, bad, symlinks=True)
        r = subprocess.run(["git", "-C", bad, "apply", d + "/patch.diff"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return bug, ["patch does not apply: " + r.stdout.decode()]
        r, o = sh(bad, "bash /opt/vp/build.sh", 300)
        if r:
            return bug, ["does not build " + o[-1500:]]
        r, o = sh(bad, "bash %s/demo.sh" % demo, 400)
        out.append("demo patched %d%s %s" % (r, "" if r not in (0, 124) else " **WRONG** ", o.strip()[-250:]))
        if tests:
            r, o = sh(bad, "bash /opt/vp/test.sh %s/t.json" % w, 900)
            t = json.load(open(w + "/t.json"))
            s = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(t["passed"])
            out.append("tests ok" if not s else "tests **FAIL** %s" % sorted(s)[:5])
        todo = others or ([meta["property"]] if check else [])
        for p in todo:
            r, o = sh(bad, "cd %s && VERIF_SEED=1 VERIF_TIER=quick python3-vt checks/%s.py" % (V, p.lower()), 900)
            ok = r == 1 and "VIOLATION property=" + p in o
            out.append("%s %s (%d): %s" % (p, "caught" if ok else "**MISSED**", r, " | ".join(x for x in o.strip().splitlines() if x.startswith(("shrunk", p, "ERROR")))[:500]))
        return bug, out
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    t, c, oth = "-t" in a, "-c" in a, None
    if "-C" in a:
        k = a.index("-C")
        oth = a[k + 1].split(",")
        del a[k:k + 2]
    ids = [x for x in a if not x.startswith("-")] or sorted(os.listdir(V + "/seeded"))
    with cf.ThreadPoolExecutor(2 if len(ids) > 1 else 1) as ex:
        for b, o in ex.map(lambda i: one(i, t, c, oth), ids):
            print("==", b)
            for x in o:
                print("   ", x)
            sys.stdout.flush()
