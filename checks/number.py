"""C07: conversion between numeric types (spec/DyndNumber.tla)."""
from common import *
from elwise import replay
import struct

REAL = ["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"]
WIDE = ["int128", "uint128"]
CPX = ["complex64", "complex128"]
TP = dict({t: t for t in REAL + WIDE}, complex64="complex[float32]", complex128="complex[float64]")
SIZE = {"bool": 1, "int8": 1, "int16": 2, "int32": 4, "int64": 8, "int128": 16, "uint8": 1, "uint16": 2, "uint32": 4,
        "uint64": 8, "uint128": 16, "float32": 4, "float64": 8, "complex64": 8, "complex128": 16}
MODES = ["nocheck", "overflow", "fractional", "inexact", "none"]
TYPES = REAL + CPX + WIDE


def rnd(rng, t, cases):
    """bytes of a number of type t"""
    if t == "complex64":
        return rnd(rng, "float32", cases) + (rnd(rng, "float32", cases) if rng.random() < 0.5 else [0, 0, 0, rng.choice([0, 0, 128])])
    if t == "complex128":
        return rnd(rng, "float64", cases) + (rnd(rng, "float64", cases) if rng.random() < 0.5 else [0] * 7 + [rng.choice([0, 0, 128])])
    if t == "bool":
        return [rng.randint(0, 1)]
    x = rng.random()
    n = SIZE[t]
    if x < 0.35:
        return rng.choice(cases[t])
    if t.startswith("float"):
        f = "<f" if t == "float32" else "<d"
        if x < 0.5:
            return [rng.randrange(256) for i in range(n)]
        v = rng.choice([rng.randint(-300, 300), rng.randint(-300, 300) / 8.0, rng.uniform(-1, 1) * 10.0 ** rng.randint(-45, 45),
                        float(rng.getrandbits(rng.randint(1, 70))), -float(rng.getrandbits(rng.randint(1, 66)))])
        if t == "float32" and abs(v) > 3e38:
            v = 3e38
        return list(struct.pack(f, v))
    v = rng.getrandbits(rng.randint(1, 8 * n))
    if rng.random() < 0.4:
        v = -v
    return list((v % (1 << 8 * n)).to_bytes(n, "little"))


def gen(rng, cases):
    s, d = rng.choice(TYPES), rng.choice(TYPES)
    n = rng.choice([1, 1, 2, 3, 5])
    sc = n == 1 and rng.random() < 0.5
    return dict(a="conv", st=s, dt=d, stp=TP[s], dtp=TP[d], mode=rng.choice(MODES), v=[rnd(rng, s, cases) for i in range(n)],
                scalar=int(sc), sw=rng.choice([0, 0, 2, 3]), dw=rng.choice([0, 0, 2, 3]))


def enum_cmds(cases):
    out = []
    k = 0
    for s in REAL + WIDE:
        for d in TYPES:
            for m in MODES[:4]:
                bad = []
                for b in cases[s]:
                    k += 1
                    if not THOROUGH and len(cases[s]) > 40 and k % 4 != SEED % 4:
                        continue
                    out.append(dict(a="conv", st=s, dt=d, stp=TP[s], dtp=TP[d], mode=m, v=[b], scalar=k % 2, sw=0, dw=0))
    # complex numbers: each part convertible or not by itself
    parts = [0.0, -0.0, 1.0, -2.0, 1.5, 0.1, 300.0, 16777217.0, 2.0 ** 31, 1e30, 1e-42, 1e300, -1e300, float("inf"), float("nan")]
    for s in CPX:
        f = "<f" if s == "complex64" else "<d"
        ps = [list(struct.pack(f, p)) for p in parts if f == "<d" or not 3.5e38 < abs(p) < float("inf")]
        for d in CPX + REAL:
            for m in MODES[:4]:
                for i, re in enumerate(ps):
                    for j, im in enumerate(ps):
                        k += 1
                        if THOROUGH or d in CPX and s != d or i < 3 and j < 3 or k % 6 == SEED % 6:
                            out.append(dict(a="conv", st=s, dt=d, stp=TP[s], dtp=TP[d], mode=m, v=[re + im], scalar=k % 2, sw=0, dw=0))
    return out


def _batch(a):
    seed, n, cases = a
    rng = random.Random(seed)
    d = Driver()
    out = []
    for i in range(n):
        r = Recorder(d)
        r.do(**gen(rng, cases))
        out.append(r.events)
    d.close()
    return out


def run(pid):
    chk = Check(pid)
    build()
    cases = gens(chk.model("NumberMC", "NumberMC.cfg", workers=NPROC))[0]
    cases = {k: [list(b) for b in v] for k, v in cases.items()}
    cmds = enum_cmds(cases)
    chk.cov["enumerated_calls"] = len(cmds)
    ok = chk.validate("NumberTrace", "NumberTrace.cfg", replay(cmds), label="enum")
    rounds = 0
    while ok:
        n = 2000 if THOROUGH else 400
        s = [x for b in pparallel(_batch, [(SEED * 1000 + rounds * 64 + i, n, cases) for i in range(NPROC)]) for x in b]
        ok = chk.validate("NumberTrace", "NumberTrace.cfg", s, label="rand%d" % rounds)
        rounds += 1
        if not THOROUGH or chk.left(600) < 0:
            break
    return chk.finish()
