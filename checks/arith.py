"""C14: arithmetic, bitwise, shift and logical operations (spec/DyndArith.tla)."""
from common import *
from elwise import replay
from number import rnd, SIZE, TP
from compare import dims, FMT
import struct

LOW = {"int32": -(1 << 31), "int64": -(1 << 63)}
REAL = ["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"]
INTS = REAL[:9]
CPX = ["complex64", "complex128"]
ARITH = ["add", "subtract", "multiply", "divide"]
ONLYINT = ["mod", "bitwise_and", "bitwise_or", "bitwise_xor", "left_shift", "right_shift"]
LOGICAL = ["logical_and", "logical_or", "logical_xor"]
UNARY = ["plus", "minus", "bitwise_not", "logical_not", "sqrt"]
BITS = {t: 8 * SIZE[t] for t in INTS}
BITS["bool"] = 1


def val(t, b):
    return struct.unpack(FMT[t], bytes(b))[0]


def enc(t, x):
    """bytes of x, brought into the type"""
    if t.startswith("float"):
        return list(struct.pack(FMT[t], x))
    if t == "bool":
        return [int(bool(x))]
    return list((int(x) % (1 << BITS[t])).to_bytes(SIZE[t], "little"))


def small(rng, t):
    if t in CPX:
        f = "float32" if t == "complex64" else "float64"
        return sum((enc(f, rng.choice([0, 1, 2, -1, 3, 0.5, -4, 100, 1e30, rng.randint(-999, 999)])) for i in (0, 1)), [])
    if t.startswith("float"):
        return enc(t, rng.choice([0.0, -0.0, 1, 2, 3, 7, 10, 0.1, -0.5, 1.5, -3, rng.randint(-1000, 1000), rng.uniform(-1, 1), rng.uniform(1, 2)]))
    return enc(t, rng.choice([0, 1, 1, 2, 3, 5, 7, 10, 100, 3, -1, -2, -7, -100, rng.randint(-300, 300)]))


def value(rng, t, cases):
    return small(rng, t) if rng.random() < 0.4 else rnd(rng, t, cases)


def second(rng, op, s, a, t, cases):
    """a right operand for a"""
    if t in INTS and op in ("left_shift", "right_shift") and rng.random() < 0.9:
        return enc(t, rng.randint(0, BITS.get(s, 64) + 1))
    x = rng.random()
    if op in ("divide", "mod") and t in INTS:
        for i in range(20):
            b = second(rng, "", s, a, t, cases)
            if rng.random() < 0.25:
                b = enc(t, (1 << rng.randint(0, 8 * SIZE[t] - 1)) * rng.choice([1, 1, -1]) + rng.choice([0, 0, 0, 1, -1]))
            if val(t, b) != 0 or rng.random() < 0.02:
                return b
        return enc(t, 1)
    if s in REAL and t in REAL and x < 0.35:
        v = val(s, a)
        if v != v or v in (float("inf"), float("-inf")):
            return value(rng, t, cases)
        # near the operand, or of a like size: cancellation, rounding and quotients near one
        try:
            if t.startswith("float"):
                w = float(v) * rng.choice([1, -1, 1, -1, 2.0 ** rng.randint(-60, 60), 3, 1 / 3.0, 1 + rng.choice([-1, 1]) * 2.0 ** -rng.randint(1, 53)])
                return enc(t, w)
            return enc(t, int(v) + rng.choice([-1, 0, 0, 1, 2]) if rng.random() < 0.5 else -int(v))
        except (OverflowError, ValueError):
            return value(rng, t, cases)
    return value(rng, t, cases)


def binary(rng, op, s, t, v, w):
    n = max(len(v), len(w))
    if len(v) != n and len(v) != 1 or len(w) != n and len(w) != 1:
        a, b = (rng.choice(["var * ", "%d * " % k]) if k else "var * " for k in (len(v), len(w)))
        l, r = (dict(tp=d + TP[q], n=q, v=y, w=0, var=int(d[0] == "v")) for d, q, y in ((a, s, v), (b, t, w)))
        return dict(a="arith", op=op, u=0, l=l, r=r, how=rng.randint(0, 1), dw=0)
    d, var = dims(rng, n)
    dl = d if len(v) == n else ""
    dr = d if len(w) == n else ""
    if n == 0:
        dl = dr = "0 * "
        var = 0
    if var and rng.random() < 0.3 and len(v) == len(w) and n > 0:
        dr = "%d * " % n
    l = dict(tp=dl + TP[s], n=s, v=v, w=rng.choice([0, 0, 2, 3]), var=int(dl[:1] == "v"))
    r = dict(tp=dr + TP[t], n=t, v=w, w=rng.choice([0, 0, 2, 3]), var=int(dr[:1] == "v"))
    return dict(a="arith", op=op, u=0, l=l, r=r, how=rng.randint(0, 1), dw=rng.choice([0, 2, 3]))


def unary(rng, op, s, v):
    d, var = dims(rng, len(v))
    if not v:
        d, var = "0 * ", 0
    l = dict(tp=d + TP[s], n=s, v=v, w=rng.choice([0, 0, 2, 3]), var=var)
    return dict(a="arith", op=op, u=1, l=l, r=l, how=rng.randint(0, 1), dw=rng.choice([0, 2, 3]))


def gen(rng, cases):
    n = rng.choice([1, 1, 2, 3, 4, 6, 8, 0])
    x = rng.random()
    if x < 0.2:
        op = rng.choice(UNARY)
        s = rng.choice(["float32", "float64"]) if op == "sqrt" and rng.random() < 0.9 else rng.choice(REAL)
        return unary(rng, op, s, [value(rng, s, cases) for i in range(n)])
    if x < 0.3:
        op = rng.choice(ARITH)
        s, t = rng.choice(CPX), rng.choice(CPX)
    else:
        op = rng.choice(ARITH * 3 + ONLYINT * 2 + LOGICAL)
        s, t = rng.choice(REAL), rng.choice(REAL)
        if rng.random() < 0.3:
            t = s
        if op in ONLYINT and rng.random() < 0.95:
            s, t = rng.choice(INTS), rng.choice(INTS)
        elif rng.random() < 0.02:
            s = rng.choice(CPX)
    v = [value(rng, s, cases) for i in range(n)]
    one = rng.random()
    if one < 0.15 and n:
        v = v[:1]
    w = [second(rng, op, s, v[i % len(v)], t, cases) for i in range(n)]
    if 0.15 < one < 0.3 and n:
        w = w[:1]
    if rng.random() < 0.03 and n > 1:
        w = (w + w + w)[:n + 1]
    c = binary(rng, op, s, t, v, w)
    if s == t and c["l"]["tp"] == c["r"]["tp"] and rng.random() < 0.1 and op not in ("divide", "mod"):
        c["r"] = c["l"]
        c["alias"] = 1
    return c


def inplace(rng, op, s, t, v, w):
    """v op= w"""
    d, var = dims(rng, len(v))
    if not v:
        d, var = "0 * ", 0
    l = dict(tp=d + TP[s], n=s, v=v, w=rng.choice([0, 0, 2, 3]), var=var, dim=int(d != ""))
    one = len(w) == 1 and (len(v) != 1 or rng.random() < 0.5)
    dr = "" if one else d if len(w) == len(v) else "%d * " % len(w)
    r = dict(tp=dr + TP[t], n=t, v=w, w=rng.choice([0, 0, 2, 3]), var=int(dr[:1] == "v"), dim=int(dr != ""))
    c = dict(a="compound", op=op, l=l, r=r)
    if s == t and l["tp"] == r["tp"] and rng.random() < 0.1:
        c["r"] = l
        c["alias"] = 1
    return c


def gen_inplace(rng, cases):
    n = rng.choice([1, 1, 2, 3, 4, 6, 8, 0])
    op = rng.choice(["add", "divide"])
    s, t = rng.choice(REAL[1:] if rng.random() < 0.97 else REAL), rng.choice(REAL[1:] if rng.random() < 0.97 else REAL)
    if rng.random() < 0.2:
        t = s
    v = [value(rng, s, cases) for i in range(n)]
    w = [second(rng, op, s, v[i], t, cases) for i in range(n)]
    x = rng.random()
    if x < 0.3 and n:
        w = w[:1]
    elif x < 0.33 and n > 1:
        w = w + w[:1]
    return inplace(rng, op, s, t, v, w)


def enum_cmds(rng, cases):
    """every operation on every pair of types, over the boundary numbers"""
    out = []
    per = 400 if THOROUGH else 8
    for op in ARITH + ONLYINT + LOGICAL:
        for s in REAL:
            for t in REAL:
                if op in ONLYINT and (s not in INTS or t not in INTS):
                    out.append(binary(rng, op, s, t, [enc(s, 1)], [enc(t, 1)]))
                    continue
                ps = [(a, b) for a in rng.sample(cases[s], min(40, len(cases[s]))) for b in cases[t]]
                if op in ("left_shift", "right_shift"):
                    ps = [(a, enc(t, k)) for a in cases[s] for k in range(0, min(64, 1 << min(BITS[t], 7)))]
                ps = [p for p in ps if op not in ("divide", "mod") or val(t, p[1]) != 0 or t not in INTS or s not in INTS]
                rng.shuffle(ps)
                ps = ps[:per]
                if op in ("divide", "mod") and s in INTS and t in INTS:      # small numbers of both signs, powers of two
                    q = [(enc(s, a), enc(t, b)) for a in (-13, -1, -7, -8, -64, 13, 100, 64, 255, -100) for b in (1, 2, 3, 4, 8, 64, 7, 13, -1, -2, -4, -5)
                         if int(b) % (1 << BITS[t])]
                    rng.shuffle(q)
                    ps += q[:120 if THOROUGH else 48 if s == t else 16]
                else:
                    ps += [(small(rng, s), small(rng, t)) for i in range(8 if op not in ("left_shift", "right_shift") else 0)
                           ] if op not in ("divide", "mod") else []
                for i in range(0, len(ps), 8):
                    p = ps[i:i + 8]
                    out.append(binary(rng, op, s, t, [a for a, b in p], [b for a, b in p]))
                if op in ("divide", "mod"):      # zero in one place, or for all
                    v = [enc(s, 3)] * 3
                    out.append(binary(rng, op, s, t, v, [enc(t, 1), enc(t, 0), enc(t, 1)]))
                    out.append(binary(rng, op, s, t, v[:1], [enc(t, 0)]))
    for op in ("add", "divide"):
        for s in REAL:
            for t in REAL:
                ps = [(a, b) for a in rng.sample(cases[s], min(40, len(cases[s]))) for b in cases[t] if op == "add" or val(t, b) != 0 or t not in INTS or s not in INTS]
                rng.shuffle(ps)
                for i in range(0, min(per, len(ps)), 8):
                    out.append(inplace(rng, op, s, t, [a for a, b in ps[i:i + 8]], [b for a, b in ps[i:i + 8]]))
                if op == "divide":
                    out.append(inplace(rng, op, s, t, [enc(s, 3)] * 2, [enc(t, 1), enc(t, 0)]))
    for op in UNARY:
        for s in REAL:
            vs = list(cases[s])
            rng.shuffle(vs)
            vs = vs[:200 if THOROUGH else 48]
            out += [unary(rng, op, s, vs[i:i + 8]) for i in range(0, len(vs), 8)]
    # exact complex numbers
    for s in CPX:
        for t in CPX:
            for op in ARITH:
                ps = [(small(rng, s), small(rng, t)) for i in range(per)]
                out += [binary(rng, op, s, t, [a for a, b in ps[i:i + 8]], [b for a, b in ps[i:i + 8]]) for i in range(0, per, 8)]
            for op in ONLYINT:
                out.append(binary(rng, op, s, t, [small(rng, s)], [small(rng, t)]))
    return out


def promotions():
    out = []
    for s in REAL + CPX + ["string", "void"]:
        for t in REAL + CPX + ["string", "void"]:
            for o in ((0, 0), (1, 0), (0, 1), (1, 1)) if "void" not in (s, t) else ((0, 0),):
                a, b = (("?" if q else "") + TP.get(n, n) for q, n in zip(o, (s, t)))
                out.append(dict(a="promote", l=a, r=b, p=dict(o=o[0], n=s), q=dict(o=o[1], n=t)))
    return out


def _batch(a):
    seed, n, cases = a
    rng = random.Random(seed)
    d = Driver()
    out = []
    for i in range(n):
        r = Recorder(d)
        r.do(**(gen_inplace if rng.random() < 0.15 else gen)(rng, cases))
        out.append(r.events)
    d.close()
    return out


def run(pid):
    chk = Check(pid)
    build()
    rng = random.Random(SEED)
    mc = gens(chk.model("ArithMC", "ArithMC2.cfg" if THOROUGH else "ArithMC.cfg", workers=NPROC))
    cases = [g for g in mc if g["k"] == "num"][0]["c"]
    cmds = enum_cmds(rng, cases) + promotions()
    chk.cov["enumerated_calls"] = len(cmds)
    ok = chk.validate("ArithTrace", "ArithTrace.cfg", replay(cmds), label="enum")
    rounds = 0
    while ok:
        n = 2000 if THOROUGH else 300
        s = [x for b in pparallel(_batch, [(SEED * 1000 + rounds * 64 + i, n, cases) for i in range(NPROC)]) for x in b]
        ok = chk.validate("ArithTrace", "ArithTrace.cfg", s, label="rand%d" % rounds)
        rounds += 1
        if not THOROUGH or chk.left(600) < 0:
            break
    return chk.finish()
