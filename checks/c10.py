#!/usr/bin/env python3-vt
"""C10: the flux output file is complete, exact and independent of layout."""
import os, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vt import build, check, cli, mesh as M

BIN = None


def prepare():
    global BIN
    BIN = build.sweep()


def gen(rng, i):
    c = cli.gen_case(rng, sweeps=cli.SWEEPS + cli.DDS, sns=(2, 2, 4, 6, 8), hi=200, scatter=True, maxp=5, hat=0, groups=(1, 2, 3, 4, 7))
    if c is None:
        return None
    c["deck"].update(iterMax=int(rng.integers(1, 4)), errMax=1e-30, DD_IterMax=int(rng.integers(2, 5)), DD_ErrMax=1e-30,
                     OutputFile=bool(rng.random() < .85))
    if not c["deck"]["SourceIteration"] or c["deck"]["SweepType"] in ("Schur", "SchurOuter", "SchurKrylov"):
        c["deck"].update(DD_ErrMax=1e-8, errMax=1e-8, DD_IterMax=50, iterMax=50)
    c["prior"] = str(rng.choice(["none", "shorter", "longer", "same", "empty"]))
    c["outname"] = str(rng.choice(["psi.out", "a.b-c_d+1", "OUT", "x" * 60]))
    return c


def test(case):
    m, deck, pr = cli.load(case)
    A, G, C = 2 * int(deck["snOrder"]) ** 2, int(deck["nGroups"]), m.nc
    full = 64 + 8 * A * G * C * 4
    with check.Workdir() as d:
        out = os.path.join(d, case["outname"])
        old = None
        if case["prior"] != "none":
            n = dict(shorter=full // 3, longer=full + 12345, same=full, empty=0)[case["prior"]]
            old = bytes(np.random.default_rng(7).integers(0, 256, n, dtype=np.uint8))
            with open(out, "wb") as f:
                f.write(old)
        os.mkdir(os.path.join(d, "cap"))
        o = cli.execute(BIN, case, m, d, keep_raw=True, extra=dict(VT_PSI=os.path.join(d, "cap", "psi")))
        info = dict(nontrivial=C >= 2, tags=cli.tags(case, deck) + ["prior_" + case["prior"], "output_%s" % deck["OutputFile"]])
        if o.res.timed_out or o.res.rc != 0:
            return "run of a valid input failed: " + o.res.tail(500), info
        files = set(os.listdir(d)) - {"m.pmesh", "in.deck", "src.bin", "marked", "cap"}
        if deck["OutputFile"] in (False, "false"):
            if old is None and files:
                return "output is turned off but files were written: %s" % sorted(files), info
            if old is not None and (files != {case["outname"]} or o.raw != old):
                return "output is turned off but the existing file was changed", info
            return None, info
        if files != {case["outname"]}:
            return "files written: %s, expected %s" % (sorted(files), case["outname"]), info
        b = o.raw
        if len(b) != full:
            return "the file has %d bytes, expected %d" % (len(b), full), info
        if b[:32] != M.PSINAME:
            return "header name %r" % b[:32], info
        h = struct.unpack("<4Q", b[32:64])
        if h != (1, C, A, G):
            return "header (version, cells, directions, groups) is %s, expected %s" % (h, (1, C, A, G)), info
        psi = o.psi
        if not np.isfinite(psi).all():
            return "non-finite values in the file", info
        # what the solver had computed, taken from memory when the writer was called
        caps = [np.fromfile(os.path.join(d, "cap", f), "<f8") for f in sorted(os.listdir(os.path.join(d, "cap")))]
        if caps:
            if len(caps) != case["nparts"]:
                return None, info
            want = np.full((C, A, 4, G), np.nan)
            for c in caps:
                n = int(c[0])
                ids = c[1:1 + n].astype(int)
                want[ids] = c[1 + n:].reshape(n, A, 4, G)
            if not np.array_equal(want, psi):
                bad = np.argwhere(~((want == psi) | (np.isnan(want) & np.isnan(psi))))[0]
                return "value of cell %d direction %d vertex %d group %d is %r, computed %r" % (*bad, psi[tuple(bad)], want[tuple(bad)]), info
            info["tags"].append("captured")
        return None, info


def shrink(case):
    yield from cli.shrink_case(case)
    if case["prior"] != "none":
        yield dict(case, prior="none")
    if case["outname"] != "psi.out":
        yield dict(case, outname="psi.out")


if __name__ == "__main__":
    check.main("C10", [check.Part("run", gen, test, 300, shrink, prepare)],
               rule="a case is a mesh x partition x deck x pre-existing file. The flux in memory is captured on every process when the solver "
                    "hands it to the writer and compared bit by bit with the file at the place of its global cell; header, size, stray files and "
                    "the switched-off case are checked too. Non-trivial: at least two cells.")
