#!/usr/bin/env python3
"""mutate.py [-w WORKERS] [-n PER_FILE] [-s SEED] [-o OUT] file...: mechanical mutants of /repo's sources against the checks named below.
Reports the mutants that no check notices; those are looked at by hand (equivalent, or a gap).  Works in /tmp on copies of the committed
trees."""
import argparse, concurrent.futures as cf, json, os, queue, random, re, shutil, signal, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "Transport.cc": "c04 c01", "Sweeper.cc": "c01 c03 c26 c18", "SweepSchedule.cc": "c08 c03 c22", "GraphTraverser.cc": "c07 c03 c18 c22",
    "Priorities.cc": "c22 c26", "TychoMesh.cc": "c06 c01", "TychoMeshIO.cc": "c06 c01 c16", "ParallelMesh.cc": "c12 c16 c13 c23 c25",
    "SerialMesh.cc": "c11 c12 c25 c14", "CommSides.cc": "c09 c18 c02", "Comm.cc": "c16 c10 c18 c25 c12 c19", "PsiData.cc": "c10",
    "Quadrature.cc": "c05 c16", "KeyValueReader.cc": "c15 c16", "KrylovSolver.cc": "c21 c02", "SourceIteration.cc": "c17 c02 c19",
    "SweeperPBJ.cc": "c17 c02", "SweeperSchur.cc": "c02 c20 c17", "SweeperTraverse.cc": "c01 c03 c22", "Problem.cc": "c19 c16 c24", "Main.cc": "c16 c03 c19 c26",
    "Util.cc": "c02 c01 c17", "SweepData.hh": "c01 c03 c02", "TraverseData.hh": "c07 c03", "Mat.hh": "c01 c23", "TychoMesh.hh": "c06 c01",
    "ParallelMesh.hh": "c12 c16", "PsiData.hh": "c10 c02 c03", "Timer.hh": "c19",
    "PartitionColumns.cc": "c13 c12 c25", "PartitionMetis.cc": "c13 c12 c23 c25", "RefineSerialMesh.cc": "c14 c24 c25 c23", "SerialMeshInfo.cc": "c11 c23 c25", "ParallelMeshInfo.cc": "c12 c23 c25",
    "Assert.cc": "c16 c25", "GraphTraverser.hh": "c07", "SweepSchedule.hh": "c08",
}


def mutants(text, rnd):
    """(line number, new line, what) for every mutable place."""
    out, comment = [], False
    lines = text.split("\n")
    for n, l in enumerate(lines):
        s = l.strip()
        if comment:
            comment = "*/" not in s
            continue
        if s.startswith("/*"):
            comment = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "printf", "using", "static const", "namespace")) or "printf" in s or "Assert(" in s or "template" in s:
            continue
        code = l.split("//")[0]
        if '"' in code and "Insist" not in code and "kvr" not in code:
            continue

        def add(rx, new, what):
            for m in re.finditer(rx, code):
                out.append((n, code[:m.start()] + m.expand(new) + code[m.end():], what))
        add(r"(?<=[^<>\-=!])<(?=\s)", "<=", "< to <=")
        add(r"<=", "<", "<= to <")
        add(r"(?<=\s)>(?=\s)", ">=", "> to >=")
        add(r">=", ">", ">= to >")
        add(r"==", "!=", "== to !=")
        add(r"!=", "==", "!= to ==")
        add(r"&&", "||", "&& to ||")
        add(r"\|\|", "&&", "|| to &&")
        add(r"(?<=\w) \+ (?=\w)", " - ", "+ to -")
        add(r"(?<=\w) - (?=\w)", " + ", "- to +")
        add(r"(?<=[\w\)]) \* (?=[\w\(])", " + ", "* to +")
        add(r"\+=", "-=", "+= to -=")
        add(r"-=", "+=", "-= to +=")
        add(r"\+\+", "--", "++ to --") if "for" not in code else None
        add(r"\btrue\b", "false", "true to false")
        add(r"\bfalse\b", "true", "false to true")
        add(r"\b0\b(?!\.)", "1", "0 to 1")
        add(r"\b1\b(?!\.)", "2", "1 to 2")
        add(r"\b2\b(?!\.)", "3", "2 to 3")
        add(r"\b3\b(?!\.)", "2", "3 to 2")
        add(r"\bmax\(", "min(", "max to min")
        add(r"\bmin\(", "max(", "min to max")
        add(r"\bif \((?!else)", "if (!(", "") if False else None
        for m in re.finditer(r"\(([\w\.\[\]]+), ([\w\.\[\]]+)(?=[,\)])", code):
            if m.group(1) != m.group(2):
                out.append((n, code[:m.start()] + "(%s, %s" % (m.group(2), m.group(1)) + code[m.end():], "swap arguments"))
        if s.endswith(";") and re.match(r"^[\w:\.\->\[\]\(\), \*&]+(\(|=|\+\+|--|\+=|-=|\|=)", s) and not re.match(
                r"^(const |static |return|UINT |int |double |bool |char |size_t |vector|std::|uint64_t |Mat\d|MPI_Request |string |Timer |auto |Tuple |for|typedef)", s) \
                and (n == 0 or lines[n - 1].strip().endswith((";", "{", "}", "*/", ")")) or not lines[n - 1].strip() or lines[n - 1].strip().startswith("//")) \
                and s.count("(") == s.count(")"):
            out.append((n, re.match(r"\s*", l).group(0) + ";", "delete statement"))
        if s in ("break;", "continue;"):
            out.append((n, ";", "delete " + s))
        m = re.match(r"^(\s*)(?:else )?if \((.*)\)( \{)?$", code.rstrip())
        if m and m.group(2).count("(") == m.group(2).count(")"):
            out.append((n, code.replace("(" + m.group(2) + ")", "(!(" + m.group(2) + "))"), "negate condition"))
    rnd.shuffle(out)
    return out


def run_check(vd, repo, c, cap):
    e = dict(os.environ, VT_REPO=repo, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.Popen(["python3-vt", "checks/%s.py" % c, "--cap", str(cap)], cwd=vd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    out, res, t0 = [], None, time.time()
    signal_group = lambda: os.killpg(p.pid, signal.SIGKILL)
    try:
        for line in p.stdout:
            out.append(line)
            if line.startswith("FAILED "):
                res = "killed"
                break
            if line.startswith("BUILD FAILED"):
                res = "nobuild"
                break
            if line.startswith("ERROR"):
                res = "error"
            if time.time() - t0 > 600:
                res = "timeout"
                break
    finally:
        subprocess.run(["pkill", "-9", "-s", str(p.pid)])
        try:
            signal_group()
        except ProcessLookupError:
            pass
        p.wait()
    return res or ("killed" if p.returncode == 1 else "alive" if p.returncode == 0 else "error"), "".join(out)[-600:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-w", type=int, default=2)
    ap.add_argument("-n", type=int, default=10)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-c", type=float, default=45)
    ap.add_argument("-o", default="/tmp/mutants.log")
    ap.add_argument("files", nargs="*")
    a = ap.parse_args()
    files = a.files or ["src/" + x if os.path.exists("/repo/src/" + x) else "util/" + x for x in CHECKS if os.path.exists("/repo/src/" + x) or os.path.exists("/repo/util/" + x)]
    jobs = []
    for f in files:
        rnd = random.Random("%d/%s" % (a.s, f))
        text = open("/repo/" + f).read()
        jobs += [(f,) + m for m in mutants(text, rnd)[:a.n]]
    random.Random(a.s).shuffle(jobs)
    q = queue.Queue()
    for k in range(a.w):
        d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
        subprocess.check_call(["git", "clone", "-q", V, d + "/verif"])
        q.put(d)
    log = open(a.o, "a")

    def one(job):
        f, n, new, what = job
        d = q.get()
        try:
            r = d + "/repo"
            shutil.rmtree(r, ignore_errors=True)
            os.mkdir(r)
            subprocess.check_call("git -C /repo archive HEAD | tar x -C " + r, shell=True)
            lines = open(r + "/" + f).read().split("\n")
            old = lines[n]
            lines[n] = new
            open(r + "/" + f, "w").write("\n".join(lines))
            t0 = time.time()
            res = []
            for c in CHECKS[os.path.basename(f)].split():
                s, o = run_check(d + "/verif", r, c, a.c)
                res.append(c + ":" + s)
                if s in ("killed", "nobuild"):
                    break
            line = "%-8s %s:%d %s | %s -> %s | %s %.0fs" % ("ALIVE" if s == "alive" else s, f, n + 1, what, old.strip(), new.strip(), " ".join(res), time.time() - t0)
            log.write(line + "\n")
            log.flush()
            b = d + "/verif/.build"
            if os.path.isdir(b) and sum(os.path.getsize(os.path.join(p, x)) for p, _, fs in os.walk(b) for x in fs) > 3e9:
                shutil.rmtree(b)
        except Exception as e:
            log.write("EXC %s %r\n" % (job, e))
            log.flush()
        finally:
            q.put(d)
    with cf.ThreadPoolExecutor(a.w) as ex:
        list(ex.map(one, jobs))
    while not q.empty():
        shutil.rmtree(q.get())


if __name__ == "__main__":
    main()
