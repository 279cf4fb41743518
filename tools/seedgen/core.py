"""Writes planted bugs: each is edits of /repo's sources (matched without regard to blank lines) and a demonstration."""
import json, os, re, shutil, subprocess, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(HERE))
S = V + "/seeded"
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append((id, prop, edits, needs, breaks, demo))


def make(only=None):
    for id, prop, edits, needs, breaks, demo in BUGS:
        if only and id not in only:
            continue
        d = S + "/" + id
        w = tempfile.mkdtemp(dir="/tmp")
        try:
            subprocess.check_call("git -C /repo archive HEAD src util | tar x -C " + w, shell=True)
            subprocess.check_call("cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x" % w, shell=True)
            bad = False
            for f, old, new in edits:
                p = w + "/" + f
                t = open(p).read()
                rx = re.compile("[ \\t]*\\n(?:[ \\t]*\\n)*".join(re.escape(l.rstrip()) for l in old.split("\n") if l.strip()))
                ms = list(rx.finditer(t))
                if len(ms) != 1:
                    print("BAD MATCH", id, f, len(ms), old)
                    bad = True
                    break
                line = t[:ms[0].start()].count("\n") + 1
                n = ms[0].group(0).count("\n")
                bl = subprocess.check_output(["git", "-C", "/repo", "blame", "-l", "-s", "-L", "%d,%d" % (line, line + n), f], text=True)
                if not [x for x in bl.splitlines() if x.startswith("^")]:
                    print("NOT ORIGINAL", id, f, bl)
                open(p, "w").write(t[:ms[0].start()] + new.rstrip("\n") + t[ms[0].end():])
            if bad:
                continue
            df = subprocess.check_output(["git", "-C", w, "diff"], text=True)
            if os.path.isdir(d):
                shutil.rmtree(d)
            os.makedirs(d)
            open(d + "/patch.diff", "w").write(df)
            open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3-vt "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
            os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo.py", "w").write(demo.lstrip("\n"))
            shutil.copy(HERE + "/demolib.py", d)
            shutil.copy(V + "/vt/mesh.py", d)
            open(d + "/ref.py", "w").write(open(V + "/vt/ref.py").read().replace("from .mesh import", "from mesh import"))
            if "resource.cc" in demo:
                shutil.copy(V + "/harness/resource.cc", d)
            if "minigomp" in demo:
                shutil.copy(V + "/harness/minigomp.cc", d)
            json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
            print("made", id)
        finally:
            shutil.rmtree(w)
