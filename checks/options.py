"""C13: optional values (spec/DyndOption.tla; elementwise functions of them: spec/DyndElwise.tla)."""
from common import *
from elwise import replay, gen_call, tystr
from number import rnd, SIZE, TP, MODES, TYPES
import struct

HAS_NA = ["bool", "int8", "int16", "int32", "int64", "int128", "uint32", "float32", "float64", "complex64", "complex128"]
F32, F64 = [162, 7, 128, 127], [162, 7, 0, 0, 0, 0, 240, 127]


def na(t):
    if t == "bool":
        return [2]
    if t == "uint32":
        return [255] * 4
    return {"float32": F32, "float64": F64, "complex64": F32 * 2, "complex128": F64 * 2}.get(t) or [0] * (SIZE[t] - 1) + [128]


def other_nan(rng, t):
    return rng.choice({"float32": [[0, 0, 192, 127], [1, 0, 128, 255], [255] * 4], "float64": [[0] * 6 + [248, 127], [1] + [0] * 5 + [240, 255]]}.get(t, [na(t)]))


def small(rng, t):
    if t == "bool":
        return [rng.randrange(2)]
    n = rng.randint(0, 100)
    if t.startswith("float"):
        return list(struct.pack("<f" if t == "float32" else "<d", n))
    if t.startswith("complex"):
        return list(struct.pack("<ff" if t == "complex64" else "<dd", n, 0))
    return list(n.to_bytes(SIZE[t], "little"))


def ix_of(rng, k, pat=None):
    """which pool element each array element takes: 1 = the missing one"""
    if pat is not None:
        return [1 if p else rng.randint(2, k) for p in pat]
    n = rng.choice([1, 2, 3, 5, 8, 127, 128, 129, 130, 255, 256, 257, 300])
    out = []
    p = rng.random()
    while len(out) < n:
        run = rng.choice([1, 1, 2, 3, 10, 100, 127, 128, 129])
        out += [1] * run if rng.random() < p else [rng.randint(2, k) for i in range(run)]
    return out[:n]


def conv(rng, cases, pat=None):
    so, do = rng.choice([(1, 1), (1, 1), (0, 1), (1, 0)])
    s = rng.choice(HAS_NA if so else TYPES)
    d = rng.choice(HAS_NA if do else TYPES)
    if d == "int128" and s == "bool" or d == "uint128":
        d = "int64"
    if rng.random() < 0.3 and s in HAS_NA:
        d = s
    tame = rng.random() < 0.8
    pool = [na(s) if so else small(rng, s)] + [small(rng, s) if tame else rnd(rng, s, cases) for i in range(rng.choice([1, 2, 3]))]
    if s.startswith("float") and rng.random() < 0.5 and (so or do):
        pool[0] = other_nan(rng, s)
    if so and not do and rng.random() < 0.6:
        pool[0] = small(rng, s)          # otherwise every assignment with a missing value is refused
    ix = ix_of(rng, len(pool), pat)
    sc = len(ix) == 1 and rng.random() < 0.5
    return dict(a="oconv", st=s, dt=d, so=so, do=do, stp="?" * so + TP[s], dtp="?" * do + TP[d], mode=rng.choice(MODES + ["none"] * 3),
                v=pool, ix=ix, scalar=int(sc), sw=rng.choice([0, 0, 2, 3]), dw=rng.choice([0, 0, 2, 3]))


def pool_of(rng, t, cases):
    p = [na(t)] + [rnd(rng, t, cases) for i in range(3)] + [small(rng, t)]
    if t.startswith("float"):
        p.append(other_nan(rng, t))
    if t.startswith("complex"):
        h = SIZE[t] // 2
        p += [na(t)[:h] + p[1][h:], p[1][:h] + na(t)[:h]]
    return p


def scan(rng, cases, t=None):
    t = t or rng.choice(HAS_NA)
    p = pool_of(rng, t, cases)
    ix = [rng.randint(1, len(p)) for i in range(rng.choice([1, 2, 7, 20]))]
    return dict(a="oscan", st=t, dt=t, dtp="?" + TP[t], v=p, ix=ix, sw=rng.choice([0, 2, 3]), nojson=int(t.startswith("complex") or t == "int128"))


def oset(rng, cases, t=None):
    t = t or rng.choice(HAS_NA)
    p = [small(rng, t) for i in range(3)]
    ix = [rng.randint(1, 3) for i in range(rng.choice([1, 2, 3, 9, 140]))]
    return dict(a="oset", st=t, dt=t, dtp="?" + TP[t], v=p, ix=ix, how=rng.choice(["fn", "rev", "each", "vals"]), out=[p[ix[min(i, len(ix) - 1)] - 1] for i in range(len(ix) + 1)])


WORDS = ["", "NA", "null", "NULL", "Null", "nULL", "None", "0", "1", "7", "-1", "127", "128", "-127", "200", "40000", "-40000", "12345678",
         "na", "Na", "none", "NONE", "N", "NAN0", "nul", "nulll", "x", "--1", "1x", "-", "NA ", " NA", "0NA", "Nonee", "true", "false", "00012", "999999999"]


def text(t, w, way):
    return dict(a="otext", st=t, dt=t, dtp="?" + TP[t], w=[ord(x) for x in w], way=way)


def text_cmds():
    out = []
    for t in ["bool", "int8", "int16", "int32", "int64", "float32", "float64"]:
        for w in WORDS:
            for way in ["assign", "set", "json", "quoted"]:
                if t == "bool" and (w in ("", "N") or w.isdigit() and w not in "01"):
                    continue
                if way == "json" and (w.startswith("0") and len(w) > 1 or w.startswith(" ") or w.endswith(" ")):
                    continue
                out.append(text(t, w, way))
    return out


def optify(rng, T, v, p):
    """an optional version of an argument, with some of its scalars missing"""
    if T["k"] == "leaf":
        return {"k": "leaf", "t": "?" + T["t"]}, (-9999 if rng.random() < p else v)
    out = [optify(rng, T["el"], x, p) for x in v]
    el = out[0][0] if out else optify(rng, T["el"], v, 0)[0] if T["el"]["k"] == "leaf" else deep(T["el"])
    return dict(T, el=el), [o[1] for o in out]


def deep(T):
    return {"k": "leaf", "t": "?" + T["t"]} if T["k"] == "leaf" else dict(T, el=deep(T["el"]))


def calls(rng):
    while True:
        cmd = gen_call(rng, maxnd=3, budget=24)
        if cmd["f"] in ("add", "subtract", "multiply", "less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "plus"):
            break
    if cmd["f"] == "plus":
        cmd["f"] = "is_na"
        cmd.pop("dst", None)
    p = rng.choice([0, 0.2, 0.5, 1])
    which = [1] if len(cmd["args"]) == 1 else rng.choice([[1, 0], [0, 1], [1, 1]])
    for a, w in zip(cmd["args"], which):
        if w:
            a["ty"], a["v"] = optify(rng, a["ty"], a["v"], p)
            a["tp"] = tystr(a["ty"])
    if "dst" in cmd:
        d = cmd["dst"]
        if "raw" in d:
            d["ty"] = deep(d["ty"])
        else:
            d["ty"], d["v"] = optify(rng, d["ty"], d["v"], 0.3)
        d["tp"] = tystr(d["ty"])
    return dict(a="call", **cmd)


def gen(rng, cases):
    x = rng.random()
    if x < 0.7:
        return conv(rng, cases)
    if x < 0.87:
        return scan(rng, cases)
    return oset(rng, cases)


def _batch(a):
    seed, n, cases, g = a
    rng = random.Random(seed)
    d = Driver()
    out = []
    for i in range(n):
        r = Recorder(d)
        r.do(**(gen(rng, cases) if g == "opt" else calls(rng)))
        out.append(r.events)
    d.close()
    return out


def scaled(pat):
    """three elements of the model's chunk are 42, 43 and 43 elements of the library's chunk of 128"""
    return [x for i, x in enumerate(pat) for k in range([42, 43, 43][i % 3])]


def enum_cmds(rng, pats, cases):
    out = []
    for i, pat in enumerate(pats):
        out.append(conv(rng, cases, pat))
        if i % 4 == SEED % 4 or THOROUGH:
            c = conv(rng, cases, scaled(pat))
            out.append(c)
    for t in HAS_NA:
        for k in range(4):
            out += [scan(rng, cases, t), oset(rng, cases, t)]
    return out + text_cmds()


def run(pid):
    chk = Check(pid)
    build()
    pats = gens(chk.model("OptionMC", "OptionMC.cfg", workers=4))
    if THOROUGH:
        chk.model("OptionMC", "OptionMC2.cfg", workers=NPROC)
    cases = gens(chk.model("NumberMC", "NumberMC.cfg", workers=NPROC))[0]
    cases = {k: [list(b) for b in v] for k, v in cases.items()}
    cmds = enum_cmds(random.Random(SEED), pats, cases)
    chk.cov["enumerated_calls"] = len(cmds)
    ok = chk.validate("OptionTrace", "OptionTrace.cfg", replay(cmds), label="enum")
    rounds = 0
    while ok:
        n = 1200 if THOROUGH else 220
        s = [x for b in pparallel(_batch, [(SEED * 1000 + rounds * 64 + i, n, cases, "opt") for i in range(NPROC)]) for x in b]
        ok = chk.validate("OptionTrace", "OptionTrace.cfg", s, label="rand%d" % rounds)
        s = [x for b in pparallel(_batch, [(SEED * 1000 + rounds * 64 + i, n, cases, "call") for i in range(NPROC)]) for x in b]
        ok = ok and chk.validate("ElwiseTrace", "ElwiseTrace.cfg", s, label="call%d" % rounds)
        rounds += 1
        if not THOROUGH or chk.left(600) < 0:
            break
    return chk.finish()
