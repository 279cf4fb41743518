#!/usr/bin/env python3-vt
"""C15: the key-value reader accepts exactly its grammar and returns exact values."""
import os, re, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import numpy as np
from vt import build, check, run

B = {}
TOKEN = re.compile(rb"[A-Za-z0-9+\-_.]+\Z")
OKCH = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-_."


def prepare():
    s = os.path.join(build.env.REPO, "src", "KeyValueReader.cc")
    B["k"] = build.build("kvr", [s, os.path.join(build.env.HARNESS, "kvr.cc")], flags=build.SAN, opt="-O1", compiler="g++",
                         base=["-std=c++11", "-w"])


# ------------------------------------------------------------------ model
def parse(data):
    """(pairs by upper-case key in order, numbers of bad lines, keys seen on good lines)."""
    lines = data.split(b"\n")
    if lines[-1] == b"":
        lines.pop()
    pairs, bad, keys = {}, [], []
    for n, l in enumerate(lines, 1):
        l = l.split(b"#")[0]
        t = re.split(rb"[ \t]+", l.strip(b" \t"))
        if t == [b""]:
            continue
        if len(t) != 2 or not TOKEN.match(t[0]) or not TOKEN.match(t[1]):
            bad.append(n)
            continue
        if t[0].upper() in pairs:
            bad.append(n)
            continue
        pairs[t[0].upper()] = (t[0], t[1])
    return pairs, bad


REAL = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\Z")


def convert(op, s):
    """Set of acceptable outcomes (code, printed value) of converting the string s."""
    s = s.decode()
    if op == "i":
        if re.match(r"[+-]?\d+\Z", s) and -2 ** 31 <= int(s) < 2 ** 31:
            return {(0, str(int(s)))}
        return {(6, "0")}
    if op == "b":
        return {(0, "1")} if s.lower() == "true" else {(0, "0")} if s.lower() == "false" else {(6, "0")}
    fl = op == "f"
    err = (6, "0" * (8 if fl else 16))
    fmt = (lambda x: "%08x" % struct.unpack("<I", struct.pack("<f", x))[0]) if fl else (lambda x: "%016x" % struct.unpack("<Q", struct.pack("<d", x))[0])
    if REAL.match(s):
        with np.errstate(all="ignore"):
            x = float(s)
            y = float(np.float32(x)) if fl else x
        if np.isinf(y):
            return {err}
        tiny = 1.2e-38 if fl else 2.3e-308
        nonzero = re.search(r"[1-9]", re.split("[eE]", s)[0]) is not None
        if abs(y) < tiny and nonzero:
            return {err, (0, fmt(y))}
        out = {(0, fmt(y))}
        if fl:                                       # double rounding: neighbouring floats when the double lies half-way
            lo, hi = np.nextafter(np.float32(y), np.float32(-np.inf)), np.nextafter(np.float32(y), np.float32(np.inf))
            for z in (lo, hi):
                if abs(float(z) - x) <= abs(y - x) * (1 + 1e-7):
                    out.add((0, fmt(float(z))))
        return out
    if re.match(r"[+-]?(inf(inity)?|nan|0x.*)\Z", s, re.I):
        return None                                  # other notations of the C library: either refused or read
    return {err}


# ------------------------------------------------------------------ generation
def rtoken(rng):
    return "".join(rng.choice(list(OKCH)) for _ in range(int(rng.choice([1, 1, 2, 3, 5, 8, 20, 60]))))


KEYS = ["alpha", "Alpha", "ALPHA", "snOrder", "SNORDER", "a.b", "a_b", "a-b", "+", "1", "x1", "errMax", "k", "K", "kk"]
VALS = ["0", "1", "-1", "+7", "007", "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999999", "12abc", "1.", ".5", "1.5", "-2.25e-3", "1e5",
        "1E+05", "1e", "e5", "1..2", "--1", "+-1", "+", "-", ".", "..", "1.5f", "1e999", "-1e999", "1e-310", "1e-400", "1e-40", "3.4028236e38", "1e38", "inf", "-INF", "nan",
        "NaN", "infinity", "0x1A", "0x", "true", "TRUE", "False", "tru", "truee", "t", "yes", "1e+", "1_000", "0e0", "-0", "-0.0", "00.10", "1-2", "1+2", "1.0.0"]


def rval(rng):
    k = rng.integers(6)
    if k == 0:
        return rtoken(rng)
    if k == 1:
        return str(int(rng.integers(-2 ** 33, 2 ** 33)))
    if k == 2:
        return repr(float(rng.normal() * 10.0 ** rng.uniform(-30, 30)))
    if k == 3:
        return "%.*e" % (int(rng.integers(0, 20)), rng.normal() * 10.0 ** rng.uniform(-300, 300))
    return str(rng.choice(VALS))


def rkey(rng):
    return str(rng.choice(KEYS)) if rng.random() < .6 else rtoken(rng)


def ws(rng, lo=0):
    return "".join(rng.choice([" ", "\t"]) for _ in range(int(rng.integers(lo, lo + 4))))


def gen_file(rng):
    k = rng.integers(12)
    if k == 0:
        return rng.integers(0, 256, int(rng.integers(0, 60)), dtype=np.uint8).tobytes()
    if k == 1:
        a = np.frombuffer(b" \t\n#ab1.=", np.uint8)
        return a[rng.integers(0, len(a), int(rng.integers(0, 60)))].tobytes()
    out, seen = [], set()
    faulty = rng.random() < .4
    for _ in range(int(rng.choice([0, 1, 2, 5, 10, 40]))):
        r = rng.random()
        com = ("#" + str(rng.choice(["", " text", "# #", "a b c", "é", "\r", "key value"]))) if rng.random() < .25 else ""
        if faulty and r < .1:
            l = str(rng.choice(["key", "a b c", "a=b", "a = b", "\"a\" b", "a b\r", "a\x0bb", "a\x0c b", "a\x00 b", "é 1", "a é", ",", "a b,", "a:b", "a/b c", "(", "a *", "a b c # x", " ;", "a\u00a0b", "- -  -"]))
        elif r < .2:
            l = ws(rng)
        else:
            key = rkey(rng)
            if key.upper() in seen and not (faulty and rng.random() < .3):
                continue
            seen.add(key.upper())
            l = ws(rng) + key + ws(rng, 1) + rval(rng) + ws(rng)
        out.append((l + com).encode())
    b = b"\n".join(out) + (b"\n" if rng.random() < .6 else b"")
    if rng.random() < .05:
        b = b.replace(b"\n", b"\r\n")
    if faulty and len(b) and rng.random() < .2:
        p = int(rng.integers(len(b)))
        b = b[:p] + bytes([int(rng.integers(256))]) + b[p + int(rng.integers(2)):]
    return b


def swap(rng, k):
    return "".join(c.swapcase() if rng.random() < .3 else c for c in k)


def gen(rng, i):
    files = [gen_file(rng) for _ in range(int(rng.choice([1, 1, 2, 3])))]
    keys = [k.decode() for f in files for k, v in parse(f)[0].values()]
    ops = []
    if rng.random() < .85:
        ops.append(["R", int(rng.integers(len(files)))])
    for _ in range(int(rng.choice([3, 10, 40, 80]))):
        r = rng.random()
        if r < .05:
            ops.append(["R", int(rng.integers(-1, len(files)))])
        elif r < .08:
            ops.append(["X"])
            if rng.random() < .7:
                ops.append(["R", int(rng.integers(-1, len(files)))])
        elif r < .1:
            ops.append(["N"])
        elif r < .14:
            ops.append(["P"])
        else:
            k = swap(rng, str(rng.choice(keys))) if keys and rng.random() < .85 else str(rng.choice(["", "nokey", "alph", "alphaa", "é", "a b", " alpha", "alpha ", "a\nb"]))
            if rng.random() < .05:
                k += "\0" if rng.random() < .5 else "x"
            ops.append([str(rng.choice(list("sidfb"))), k.encode().hex()])
    return dict(files=[f.hex() for f in files], ops=ops)


# ------------------------------------------------------------------ test
def test(case):
    files = [bytes.fromhex(f) for f in case["files"]]
    models = [parse(f) for f in files]
    with check.Workdir() as d:
        for k, f in enumerate(files):
            with open(os.path.join(d, "f%d" % k), "wb") as h:
                h.write(f)
        with open(os.path.join(d, "s"), "w") as h:
            for o in case["ops"]:
                h.write(o[0] + ((" f%d" % o[1] if o[1] >= 0 else " missing") if o[0] == "R" else " " + o[1] if len(o) > 1 else "") + "\n")
        r = run.run([B["k"], "s", "o"], cwd=d, timeout=30)
        info = dict(nontrivial=any(o[0] == "R" and o[1] >= 0 and files[o[1]] for o in case["ops"]),
                    tags=["refused" if any(m[1] for m in models) else "accepted"])
        if r.rc != 0:
            return "the reader crashed: " + r.tail(600), info
        with open(os.path.join(d, "o")) as h:
            res = [l.rstrip("\n").split(":", 1) for l in h]
    if len(res) != len(case["ops"]):
        return "only %d of %d calls returned" % (len(res), len(case["ops"])), info
    said = re.split(r"@@(\d+)\n", r.out)
    said = {int(said[k]): said[k + 1] for k in range(1, len(said) - 1, 2)}
    read, clean, cur = False, True, {}
    name = {1: "AlreadyReadAFile", 2: "FileNotRead", 3: "OpenFileError", 4: "ParseFileError", 5: "KeyNotFound", 6: "StringConversionError", 0: "no error"}
    for n, (o, (code, val)) in enumerate(zip(case["ops"], res)):
        code = int(code)
        w = "call %d (%s)" % (n, o[0] if len(o) < 2 else "%s %r" % (o[0], bytes.fromhex(o[1]) if isinstance(o[1], str) else o[1]))
        nm = lambda c: name.get(c, "unknown exception")
        if o[0] in "NX":
            read, clean, cur = False, True, {}
            if code:
                return "%s: %s" % (w, nm(code)), info
        elif o[0] == "P":
            if code != (0 if read else 2):
                return "%s: %s, expected %s" % (w, nm(code), nm(0 if read else 2)), info
            if read and clean:
                want = [(k.decode() + " " + v.decode()) for k, v in cur.values()]
                got = [" ".join(l.split()) for l in said[n].split("\n")]
                got = [l for l in got if l in set(want)]
                if got != want:
                    return "%s: prints %s, the file has %s" % (w, got[:8], want[:8]), info
        elif o[0] == "R":
            if read:
                want = 1
            elif o[1] < 0:
                want = 3
            else:
                pairs, bad = models[o[1]]
                want = 4 if bad else 0
            if code != want:
                return "%s: %s, expected %s%s" % (w, nm(code), nm(want), " (line %s)" % models[o[1]][1][:3] if want == 4 else ""), info
            if want in (0, 4):
                read, clean, cur = True, want == 0, pairs
            if want == 4:
                told = set(int(x) for x in re.findall(r"line (\d+)", said[n]))
                if told != set(bad):
                    return "%s: reports lines %s, lines %s are wrong" % (w, sorted(told)[:6], bad[:6]), info
        else:
            empty = {"s": "", "i": "0", "d": "0" * 16, "f": "0" * 8, "b": "0"}[o[0]]
            key = bytes.fromhex(o[1]).upper()
            if not read:
                want = {(2, empty)}
            elif key not in cur:
                want = {(5, empty)}
            else:
                v = cur[key][1]
                want = {(0, v.hex())} if o[0] == "s" else convert(o[0], v)
                if want is not None and not clean:
                    want = want | {(5, empty)}
            if want is None:
                if code not in (0, 6):
                    return "%s of %r: %s" % (w, v, nm(code)), info
            elif (code, val) not in want:
                return "%s: gives %s %r, expected %s" % (w, nm(code), val, [(nm(c), x) for c, x in want]), info
    return None, info


def shrink(case):
    O, F = case["ops"], case["files"]
    size = len(O) // 2
    while size >= 1:
        for a in range(0, len(O), size):
            yield dict(case, ops=O[:a] + O[a + size:])
        size //= 2
    for k, f in enumerate(F):
        ls = bytes.fromhex(f).split(b"\n")
        for j in range(len(ls)):
            yield dict(case, files=F[:k] + [b"\n".join(ls[:j] + ls[j + 1:]).hex()] + F[k + 1:])


if __name__ == "__main__":
    check.main("C15", [check.Part("reader", gen, test, 5000, shrink, prepare, thorough=200000, optional=True)],
               rule="a case is up to three deck files (grammatical, with single faults, random bytes) and a sequence of up to 80 reader calls (read, reset, new reader, "
                    "typed getters with keys in any letter case, print) compared with a model written from the documented grammar. The harness runs under "
                    "AddressSanitizer and UBSan. Non-trivial: a non-empty file is read.")
