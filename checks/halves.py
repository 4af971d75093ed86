"""C21: half-precision numbers (spec/DyndHalf.tla)."""
from common import *
from elwise import replay
import struct

INT = {"int8": "<b", "int16": "<h", "int32": "<i", "int64": "<q", "uint16": "<H", "uint32": "<I", "uint64": "<Q"}
ALLINT = dict(INT, uint8="<B")


def hval(h):
    return struct.unpack("<e", struct.pack("<H", h))[0]


def near(rng, t):
    """bits of a number of type t around halves: a half and what is below its last place"""
    h = rng.randrange(65536)
    x = hval(h)
    if x != x or x in (float("inf"), float("-inf")):
        x = 65504.0
    k = rng.randrange(4)
    if t == "float32":
        b = struct.unpack("<I", struct.pack("<f", x))[0]
        b += rng.choice([0, 1, 0x1000, 0xfff, 0x1001, rng.randrange(1 << 13), rng.randrange(1 << 13)]) if k else rng.randrange(-4, 5)
        if rng.random() < 0.1:
            b = rng.randrange(1 << 32)
        return list((b % (1 << 32)).to_bytes(4, "little"))
    b = struct.unpack("<Q", struct.pack("<d", x))[0]
    b += rng.choice([0, 1, 1 << 41, (1 << 41) - 1, (1 << 41) + 1, 1 << rng.randrange(42), rng.randrange(1 << 42)]) if k else rng.randrange(-4, 5)
    if rng.random() < 0.1:
        b = rng.randrange(1 << 64)
    return list((b % (1 << 64)).to_bytes(8, "little"))


def fits(t, h):
    x = hval(h)
    if x != x or x in (float("inf"), float("-inf")):
        return False
    w = 8 * struct.calcsize(ALLINT[t])
    lo, hi = (0, 2 ** w - 1) if t[0] == "u" else (-2 ** (w - 1), 2 ** (w - 1) - 1)
    return lo <= int(x) <= hi and not (t[0] == "u" and x < 0)


def some_half(rng):
    return rng.choice([0, 0x8000, 1, 0x8001, 0x3ff, 0x400, 0x3c00, 0xbc00, 0x7bff, 0xfbff, 0x7c00, 0xfc00, 0x7e00, 0x7c01, 0xfe01, rng.randrange(65536), rng.randrange(65536)])


def gen(rng):
    k = rng.randrange(5)
    if k < 2:
        t = rng.choice(["float32", "float64"])
        return dict(a="half_narrow", t=t, v=[near(rng, t) for i in range(24)])
    if k == 2:
        t = rng.choice(list(INT))
        w = 8 * struct.calcsize(INT[t])
        v = []
        for i in range(16):
            n = rng.choice([0, 1, 2047, 2048, 2049, 2050, 2051, 4095, 4098, 65503, 65504, 65519, 65520, 65535, 65536, rng.randrange(1 << rng.randint(1, w)), rng.randrange(70000)])
            if t[0] != "u" and rng.random() < 0.5:
                n = -n
            v.append(list((n % (1 << w)).to_bytes(w // 8, "little")))
        return dict(a="half_narrow", t=t, v=v)
    if k == 3:
        t = rng.choice(list(ALLINT))
        v = []
        while len(v) < 16:
            h = some_half(rng)
            if fits(t, h):
                v.append(h)
        return dict(a="half_int", t=t, v=v)
    t = rng.choice(["float16", "float16", "float64", "int32"])
    p = []
    while len(p) < 24:
        a = some_half(rng)
        b = rng.choice([a, a ^ 0x8000, (a + 1) % 65536, some_half(rng), some_half(rng)])
        if t != "int32" or fits(t, b):
            p.append([a, b])
    return dict(a="half_cmp", t=t, p=p)


def run(pid):
    chk = Check(pid)
    build()
    rng = random.Random(SEED)
    chk.model("HalfMC", "HalfMC.cfg", workers=NPROC)
    gs = gens(chk.model("HalfMC", "HalfMCGen.cfg", workers=NPROC))
    cmds = []
    for t in ("float32", "float64"):
        v = [g["b"] for g in gs if g["t"] == t]
        cmds += [dict(a="half_narrow", t=t, v=v[i:i + 42]) for i in range(0, len(v), 42)]
    # every half there is
    cmds += [dict(a="half_widen", h=h, n=256) for h in range(0, 65536, 256)]
    cmds += [dict(a="half_narrow", t="bool", v=[[0], [1]])]
    special = [0, 0x8000, 1, 0x8001, 2, 0x3ff, 0x400, 0x8400, 0x3c00, 0xbc00, 0x3c01, 0x7bff, 0xfbff, 0x7c00, 0xfc00, 0x7e00, 0xfe00, 0x7c01]
    cmds += [dict(a="half_cmp", t="float16", p=[[a, b] for b in special]) for a in special]
    chk.cov["enumerated_commands"] = len(cmds)
    ok = chk.validate("HalfTrace", "HalfTrace.cfg", replay(cmds), label="enum")
    rounds = 0
    while ok:
        cmds = [gen(rng) for i in range(400 if not THOROUGH else 4000)]
        ok = chk.validate("HalfTrace", "HalfTrace.cfg", replay(cmds), label="rand%d" % rounds)
        rounds += 1
        if not THOROUGH or chk.left(600) < 0:
            break
    return chk.finish()
