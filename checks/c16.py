#!/usr/bin/env python3-vt
"""C16: a run uses exactly what the deck and mesh say, or refuses to start."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vt import build, check, cli, mesh as M

BIN = None
INTS = ["snOrder", "iterMax", "maxCellsPerStep", "intraAngleP", "interAngleP", "nGroups", "DD_IterMax"]
REALS = ["errMax", "sigmaT1", "sigmaS1", "sigmaT2", "sigmaS2", "DD_ErrMax"]
BOOLS = ["OutputFile", "SourceIteration"]
CHOICES = ["MPIType", "SweepType", "GaussElim"]


def prepare():
    global BIN
    BIN = build.sweep()


def base(rng, **kw):
    c = None
    for _ in range(20):
        c = cli.gen_case(rng, lo=2, hi=50, scatter=True, work=1500, maxp=3, sns=(2, 4), **kw)
        if c:
            break
    if c is None:
        return None
    if c["source"]["kind"] == "wide":
        c["source"]["kind"] = "random"
    c["deck"]["iterMax"] = int(rng.integers(1, 6))
    c["deck"]["errMax"] = float(10 ** rng.uniform(-6, -1))
    if not c["deck"]["SourceIteration"]:
        c["deck"].update(iterMax=40, errMax=1e-9)
    c["deck"].update(DD_IterMax=int(rng.integers(2, 60)), DD_ErrMax=float(10 ** rng.uniform(-9, -1)))
    return c


def recase(rng, s):
    r = rng.random()
    if r < .3:
        return s.upper()
    if r < .6:
        return s.lower()
    return "".join(ch.upper() if rng.random() < .5 else ch.lower() for ch in s)


def blank(rng, least=0):
    return "".join(str(rng.choice([" ", "\t", "  "])) for _ in range(int(rng.integers(least, least + 3))))


def restyle(rng, deck):
    """The same key-value pairs written differently."""
    items = list(deck.items())
    out = []
    for j in rng.permutation(len(items)):
        k, v = items[int(j)]
        while rng.random() < .15:
            out.append(str(rng.choice(["", "   ", "# comment", "  # snOrder 99", "\t#", "#####", "# iterMax 5 5 5"])))
        k = recase(rng, k) if rng.random() < .7 else k
        v = cli.fmt(v)
        if items[int(j)][0] in BOOLS and rng.random() < .5:
            v = recase(rng, v)
        line = blank(rng) + k + blank(rng, 1) + v + blank(rng)
        r = rng.random()
        if r < .15:
            line += "# trailing"
        elif r < .25:
            line += "#" + k + " 7"
        out.append(line)
    return "\n".join(out) + ("\n" if rng.random() < .8 else "")


# ---------------------------------------------------------------- the same deck, written differently
def gen_same(rng, i):
    c = base(rng, sweeps=cli.SWEEPS + cli.DDS)
    if c is None:
        return None
    c["deck_text"] = restyle(rng, cli.full_deck(c["deck"]) | dict(OutputFilename="psi.out"))
    return c


def test_same(case):
    m, deck, pr = cli.load(case)
    a = cli.execute(BIN, dict(case, deck_text=None), m)
    b = cli.execute(BIN, case, m)
    info = dict(nontrivial=True, tags=cli.tags(case, deck))
    f = cli.run_failure(a)
    if f:
        return "canonical deck: " + f, info
    f = cli.run_failure(b)
    if f:
        return "deck written differently: " + f, info
    e = cli.reldiff(b.psi, a.psi) if np.abs(a.psi).max() > 0 else float(np.abs(b.psi).max() > 0)
    tol = 1e-9 if deck["SweepType"] in cli.SWEEPS and deck["SourceIteration"] else 1e-5
    if not e < tol:
        return "the deck written differently gives another flux (relative difference %.3e)" % e, info
    return None, info


# ---------------------------------------------------------------- values are used
def gen_use(rng, i):
    c = base(rng)
    if c is None:
        return None
    d = c["deck"]
    d["SourceIteration"] = True
    d["iterMax"] = int(rng.integers(1, 8))
    d["errMax"] = 1e-30
    c["outname"] = str(rng.choice(["psi.out", "AB", "x_1.bin", "deck-2+3"]))
    d["OutputFilename"] = c["outname"]
    d["OutputFile"] = bool(rng.random() < .85)
    c["deck_text"] = restyle(rng, cli.full_deck(d))
    return c


def test_use(case):
    m, deck, pr = cli.load(case)
    info = dict(nontrivial=True, tags=cli.tags(case, deck) + ["output_%s" % deck["OutputFile"]])
    with check.Workdir() as d:
        o = cli.execute(BIN, case, m, d)
        files = set(os.listdir(d)) - {"m.pmesh", "in.deck", "src.bin", "marked"}
    if o.res.timed_out or o.res.rc != 0:
        return "run failed: " + o.res.tail(500), info
    want = {case["outname"]} if deck["OutputFile"] in (True, "true") else set()
    if files != want:
        return "output files %s, the deck asks for %s" % (sorted(files), sorted(want)), info
    if not want:
        return None, info
    if o.psi is None:
        return "output does not have the size the deck asks for: %s" % o.psi_err, info
    if not o.marked:
        case = dict(case, source=dict(kind="hat"))
    Q = cli.ref_source(case, m, deck, pr)
    if not np.abs(Q).max() > 0:
        info["nontrivial"] = False
        return None, info
    psi, _e = pr.source_iteration(Q, iters=int(deck["iterMax"]))
    e = cli.reldiff(o.psi, psi)
    if not e < 1e-8:
        return "the flux is not that of the deck's values (relative difference %.3e)" % e, info
    return None, info


# ---------------------------------------------------------------- refusals
def gen_refuse(rng, i):
    c = base(rng, sweeps=cli.SWEEPS + cli.DDS)
    if c is None:
        return None
    deck = cli.full_deck(c["deck"])
    deck["OutputFilename"] = "psi.out"
    lines = ["%s %s" % (k, cli.fmt(v)) for k, v in deck.items()]
    keys = list(deck)

    def setv(k, v):
        return ["%s %s" % (k, v) if q == k else l for q, l in zip(keys, lines)]
    kinds = ["missing", "missing", "duplicate", "choice", "int", "real", "bool", "order", "order", "material", "nparts", "nparts", "badline",
             "badchar", "priority", "nofile", "nodeck", "zerostep"]
    w = kinds[int(rng.integers(len(kinds)))]
    c["why"] = w
    if w == "missing":
        k = str(rng.choice(keys))
        c["what"] = k
        j = keys.index(k)
        lines = lines[:j] + (["# " + lines[j]] if rng.random() < .3 else []) + lines[j + 1:]
    elif w == "duplicate":
        k = str(rng.choice(keys))
        c["what"] = k
        v = cli.fmt(deck[k])
        j = int(rng.integers(len(lines) + 1))
        lines = lines[:j] + ["%s %s" % (recase(rng, k), v if rng.random() < .6 else "3")] + lines[j:]
    elif w == "choice":
        k = str(rng.choice(CHOICES))
        v = str(rng.choice(["Other", "0", "None", deck[k] + "x", deck[k][:-1] if deck[k] not in ("PBJSI", "SchurOuter") else "PB", "x" + deck[k]]))
        c["what"] = "%s %s" % (k, v)
        lines = setv(k, v)
    elif w == "priority":
        k = str(rng.choice(["intraAngleP", "interAngleP"]))
        v = {"intraAngleP": int(rng.choice([5, 6, 17])), "interAngleP": int(rng.choice([3, 4, 9]))}[k]
        sw = str(rng.choice(["OriginalTycho1", "TraverseGraph"]))
        c["what"] = "%s %d" % (k, v)
        c["deck"]["SweepType"] = sw
        lines = setv(k, v)
        lines[keys.index("SweepType")] = "SweepType " + sw
    elif w == "int":
        k = str(rng.choice(INTS))
        v = str(rng.choice(["abc", "x2", "2x", "1.5", "true", "2e0", "-", "+", ".", "1_000"]))
        c["what"] = "%s %s" % (k, v)
        lines = setv(k, v)
    elif w == "zerostep":
        v = str(rng.choice(["0", "0", "00", "-0", "+0"]))
        c["what"] = "maxCellsPerStep " + v
        lines = setv("maxCellsPerStep", v)
        lines[keys.index("SweepType")] = "SweepType " + str(rng.choice(["OriginalTycho1", "OriginalTycho2", "TraverseGraph"]))
    elif w == "real":
        k = str(rng.choice(REALS))
        v = str(rng.choice(["abc", "1.0x", "1.2.3", "true", "-", ".", "e5", "1.0e", "1e5e5"]))
        c["what"] = "%s %s" % (k, v)
        lines = setv(k, v)
    elif w == "bool":
        k = str(rng.choice(BOOLS))
        v = str(rng.choice(["yes", "no", "1", "0", "t", "truee", "fals", "on", "2"]))
        c["what"] = "%s %s" % (k, v)
        lines = setv(k, v)
    elif w == "order":
        v = int(rng.choice([1, 3, 5, 7, 9, 11, 13, 15, 17, 19, 21, 23, 25, 27, 29, 31, 32, 33, 34, 64, 0, -2]))
        c["what"] = "snOrder %d" % v
        lines = setv("snOrder", v)
    elif w == "material":
        m = M.Mesh.from_json(c["mesh"])
        j = int(rng.integers(m.nc))
        m.mats[j] = int(rng.choice([0, 3, 4, 7, 1000]))
        c["mesh"] = m.to_json()
        c["what"] = "material %d of cell %d" % (m.mats[j], j)
    elif w == "nparts":
        n = c["nparts"]
        c["run"] = int(rng.choice([x for x in (1, 2, 3, 4, 5) if x != n]))
        c["what"] = "%d partitions on %d processes" % (n, c["run"])
    elif w == "badline":
        j = int(rng.integers(len(lines) + 1))
        bad = str(rng.choice(["lonely", "a b c", "key value extra", "snOrder 2 4", "x y z # c", "one # two"]))
        c["what"] = bad
        lines = lines[:j] + [bad] + lines[j:]
    elif w == "badchar":
        j = int(rng.integers(len(lines)))
        ch = str(rng.choice(list("=:,;!@$%^&*()[]{}<>?/\\|~`'\"")))
        c["what"] = lines[j] + ch
        lines = lines[:j] + [lines[j] + ch] + lines[j + 1:]
    else:
        c["what"] = w
    c["deck_text"] = "\n".join(lines) + "\n"
    return c


def test_refuse(case):
    m = M.Mesh.from_json(case["mesh"])
    from vt import run
    info = dict(nontrivial=True, tags=[case["why"]])
    with check.Workdir() as d:
        cli.write_inputs(d, case, m)
        n = case.get("run", case["nparts"])
        mesh, deck = "m.pmesh", "in.deck"
        if case["why"] == "nofile":
            mesh = "none.pmesh"
        if case["why"] == "nodeck":
            deck = "none.deck"
        r = run.mpirun(n, [BIN, mesh, deck], threads=case["threads"], cwd=d, timeout=20 if case["why"] == "zerostep" else cli.TIMEOUT)
        left = set(os.listdir(d)) - {"m.pmesh", "in.deck"}
    what = "%s (%s)" % (case["why"], case["what"])
    if r.timed_out:
        return "%s: the run does not end: %s" % (what, r.tail(300)), info
    if r.rc == 0:
        return "%s: the run succeeded with status 0" % what, info
    left = {x for x in left if not x.startswith("core")}
    if left:
        return "%s: output was written: %s" % (what, sorted(left)), info
    return None, info


def shrink_deck(case):
    """Fewer restyled lines."""
    m = M.Mesh.from_json(case["mesh"])
    for c in cli.shrink_case(case):
        if c["deck"] == case["deck"]:
            yield c
    canon = cli.deck_text(cli.full_deck(case["deck"]) | dict(OutputFilename=case.get("outname", "psi.out"))).splitlines()
    ls = case["deck_text"].splitlines()
    for j in range(len(ls)):
        t = ls[j].split("#")[0].split()
        if not t:
            yield dict(case, deck_text="\n".join(ls[:j] + ls[j + 1:]) + "\n")
        else:
            k = [l for l in canon if l.split()[0].lower() == t[0].lower()]
            if k and k[0] != ls[j]:
                yield dict(case, deck_text="\n".join(ls[:j] + k + ls[j + 1:]) + "\n")


if __name__ == "__main__":
    check.main("C16", [check.Part("use", gen_use, test_use, 120, shrink_deck, prepare),
                       check.Part("same", gen_same, test_same, 90, shrink_deck, prepare),
                       check.Part("refuse", gen_refuse, test_refuse, 260, None, prepare)],
               rule="use: a deck in random order, case, spacing and with comments; the flux must be the iterate its values define. same: two "
                    "writings of one deck give one result. refuse: a deck or mesh with one fault must fail with non-zero status and leave no "
                    "output. Non-trivial: all but runs with a zero source.")
