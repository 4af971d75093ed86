"""C12: strings and their encodings (spec/DyndString.tla)."""
from common import *
from elwise import replay

ENCS = ["ascii", "utf8", "utf16", "ucs2", "utf32"]
FNS = ["concat", "count", "find", "rfind", "replace", "split", "startswith", "endswith", "contains"]
MAPSIZE = {"string": [0, 3, 14, 15, 24], "bytes": [0, 3, 15, 16, 24]}     # sizes 0 1 2 3 5 around the capacity of 2 in the model


def rbytes(rng, n, alpha=None):
    alpha = alpha or rng.choice(["ab", "abc", "abcdefgh \0\xff\x80"])
    return [ord(rng.choice(alpha)) for i in range(n)]


def from_model(kind, hist):
    ops = []
    for k, h in enumerate(hist):
        op = {"op": h["op"], "o": h["o"]}
        if "p" in h:
            op["p"] = h["p"]
        if "n" in h:
            op["s"] = [(65 + k * 7 + i) % 128 for i in range(MAPSIZE[kind][[0, 1, 2, 3, 5].index(h["n"])])]
        ops.append(op)
    return dict(a="value", kind=kind, ops=ops)


def history(rng):
    kind = rng.choice(["string", "bytes"])
    size = {"a": 0, "b": 0}
    ops = []
    lim = rng.choice([20, 20, 60])
    for i in range(rng.randint(2, 14)):
        o, p, q = rng.choice("ab"), rng.choice("ab"), rng.choice("ab")
        n = rng.choice([0, 1, 7, 8, 9, 12, 13, 14, 15, 16, 17, 22, 23, 24, rng.randint(0, lim)])
        k = rng.choice(["assign", "assign", "append", "resize", "resize", "reserve", "copy", "recopy", "part", "addpart", "add", "plus", "move", "clear", "construct"])
        if k in ("append", "add", "addpart", "plus") and size["a"] + size["b"] > 120:
            k = "resize"
        op = {"op": k, "o": o}
        if k in ("assign", "append", "resize", "reserve", "construct"):
            op["s"] = rbytes(rng, n)
        if k in ("copy", "recopy", "add", "move", "part", "addpart", "plus"):
            op["p"] = p
        if k in ("recopy", "move") and p == o:
            op["p"] = "b" if o == "a" else "a"
        p = op.get("p", p)
        if k == "plus":
            op["q"] = q
        if k in ("part", "addpart"):
            op["i"] = rng.randint(0, size[p])
            op["n"] = rng.randint(0, size[p] - op["i"])
        size[o] = {"assign": n, "construct": n, "append": size[o] + n, "resize": n, "reserve": size[o], "copy": size[p], "recopy": size[p], "part": op.get("n", 0),
                   "addpart": size[o] + op.get("n", 0), "add": size[o] + size[p], "plus": size[p] + size[q], "move": size[p], "clear": 0}[k]
        if k == "move" and p != o:
            size[p] = 0
        ops.append(op)
    return dict(a="value", kind=kind, ops=ops)


def cps(rng, n):
    return [rng.choice([rng.randint(1, 127), rng.randint(97, 122), rng.randint(128, 2047), rng.choice([127, 128, 2047, 2048, 55295, 57344, 65535, 65536, 1114111]),
                        rng.randint(2048, 55295), rng.randint(57344, 65535), rng.randint(65536, 1114111)][:rng.choice([2, 4, 7])]) for i in range(n)]


def units(enc, t):
    s = "".join(map(chr, t))
    if enc in ("ascii", "utf8", "string"):
        return list(s.encode("utf8"))
    b = s.encode("utf-16-le" if enc in ("utf16", "ucs2") else "utf-32-le")
    w = 4 if enc == "utf32" else 2
    return [int.from_bytes(b[i:i + w], "little") for i in range(0, len(b), w)]


def spoil(rng, enc, u):
    """units that are no text, mostly"""
    if not u:
        return u
    k = rng.randrange(len(u))
    bad = {"ascii": [128, 255], "utf8": [128, 191, 192, 193, 245, 255, 0xed, 0xe0, 0xf0, 0xf4, 0xc3], "string": [128, 192, 0xed, 0xf4, 0xe2, 255],
           "utf16": [0xd800, 0xdbff, 0xdc00, 0xdfff], "ucs2": [0xd800, 0xdfff], "utf32": [0xd800, 0xdfff, 0x110000, 0x7fffffff]}[enc]
    u = u[:k] + [rng.choice(bad)] + u[k + rng.choice([0, 1]):]
    if enc in ("utf8", "string") and rng.random() < 0.4:
        u = u[:k] + rng.choice([[0xed, 0xa0, 0x80], [0xe0, 0x80, 0x80], [0xf0, 0x80, 0x80, 0x80], [0xf4, 0x90, 0x80, 0x80], [0xc1, 0xbf], [0xe2, 0x82], [0xf0, 0x9f, 0x98]]) + u[k:]
    return u


def trans(rng):
    se, de = rng.choice(ENCS + ["string", "string"]), rng.choice(ENCS + ["string", "string"])
    n = rng.choice([1, 1, 2, 3])
    low = rng.random() < 0.4
    ts = [cps(rng, rng.choice([0, 1, 2, 3, 5, 8, 20])) for i in range(n)]
    if low or se == "ascii" or rng.random() < 0.3 and de == "ascii":
        ts = [[x % 127 + 1 for x in t] for t in ts]
    if se == "ucs2":
        ts = [[x % 55295 + 1 for x in t] for t in ts]
    v = [units(se, t) for t in ts]
    if rng.random() < 0.2:
        v[0] = spoil(rng, se, v[0])
    if se == "string" and rng.random() < 0.05:
        v[0] = v[0] + [0] + [65]
    m = max(1, max(map(len, v)))
    sn = m + rng.choice([0, 0, 1, 5])
    if se != "string":
        v = [u + [0] * (sn - len(u)) for u in v]
        if rng.random() < 0.1:
            v[0] = [x if i != sn // 2 else 0 for i, x in enumerate(v[0])]
    need = max(1, max(len(units(de, t)) for t in ts))
    dn = max(1, need + rng.choice([0, 0, 0, 1, 4, -1, -2, -3, -need // 2]))
    stp = "string" if se == "string" else "fixed_string[%d,'%s']" % (sn, se)
    dtp = "string" if de == "string" else "fixed_string[%d,'%s']" % (dn, de)
    dv = [[120] * (rng.choice([0, 5, 14, 20, 40]) if de == "string" else dn) for u in v]
    return dict(a="trans", se=se, de=de, stp=stp, dtp=dtp, dn=dn, mode=rng.choice(["none", "none", "none", "nocheck", "overflow", "fractional", "inexact"]), v=v, dv=dv,
                hist=[rbytes(rng, rng.choice([3, 14, 30]), "xyz")] if se == "string" and rng.random() < 0.3 else [],
                scalar=int(n == 1 and rng.random() < 0.5), sw=rng.choice([0, 0, 2, 3]), dw=rng.choice([0, 0, 2, 3]))


def selfassign(rng):
    n = rng.randint(1, 5)
    k = rng.choice([1, 1, 1, 4])
    tp = "string" if rng.random() < 0.8 else "fixed_string[16,'utf16']"
    v = [rbytes(rng, rng.choice([0, 1, 7, 8, 9, 12, 13, 14, 15, 16, 30]), "abcdef") for i in range(n)]
    if tp != "string":
        v = [(u + [0] * 16)[:16] for u in v]
    moves = [[0, 0] if rng.random() < 0.4 else [rng.randint(1, n), rng.randint(1, n)] for i in range(k)]
    return dict(a="selfassign", stp=tp, v=v, moves=moves, sw=rng.choice([0, 2, 3]))


def sfn(rng, h=None, nd=None, f=None):
    f = f or rng.choice(FNS + ["replace", "count", "rfind"])
    na = 3 if f == "replace" else 2
    n = rng.choice([1, 2, 3, 5])
    alpha = rng.choice(["ab", "ab", "abc", "a\xc3\xa9b", "a\0b\xff"])

    def hay():
        if h is not None:
            return list(h)
        x = rbytes(rng, rng.choice([0, 1, 3, 8, 14, 15, 16, 30, 60]), alpha)
        return x

    def needle(hs):
        if nd is not None:
            return list(nd)
        k = rng.choice([1, 1, 2, 2, 3, 4, 6])
        s = rng.choice(hs) if hs else []
        if f in ("startswith", "endswith") and s and rng.random() < 0.6:
            k = rng.randint(1, len(s))
            return s[:k] if f == "startswith" else s[-k:]
        if len(s) >= k and rng.random() < 0.7:
            i = rng.randint(0, len(s) - k)
            t = s[i:i + k]
            if rng.random() < 0.15:
                t[rng.randrange(k)] = 122
            return t
        return rbytes(rng, rng.choice([0, k, k, k]), alpha)
    scalar = [int(rng.random() < 0.35) for i in range(na)]
    hs = [hay() for i in range(1 if scalar[0] else n)]
    if f not in ("concat",) and rng.random() < 0.3 and nd is None and h is None:
        p = needle(hs) or [97]
        hs[0] = (p * 8)[:rng.randint(len(p), max(40, len(p)))]          # many and touching occurrences
        args = [hs, [p] if scalar[1] else [p] + [needle(hs) for i in range(n - 1)]]
    else:
        args = [hs, [needle(hs) for i in range(1 if scalar[1] else n)]]
    if na == 3:
        m = len(args[1][0])
        args.append([rbytes(rng, rng.choice([0, 1, m, m, m + 1, 5]), "xy") for i in range(1 if scalar[2] else n)])
    c = dict(a="sfn", f=f, args=args, scalar=scalar, w=[rng.choice([0, 0, 2, 3]) for i in args],
             hist=[rbytes(rng, rng.choice([3, 14, 30]), "xyz")] if rng.random() < 0.3 else [], rn=1)
    if f in ("concat", "replace") and rng.random() < 0.5:
        sc = all(scalar) and rng.random() < 0.5
        c["dst"] = [rbytes(rng, rng.choice([0, 5, 14, 20, 40]), "uvw") for i in range(1 if sc else n)]
        c["dscalar"] = int(sc)
        c["rn"] = len(c["dst"])
        c["dw"] = rng.choice([0, 0, 2, 3])
    return c


def gen(rng):
    x = rng.random()
    return history(rng) if x < 0.3 else trans(rng) if x < 0.6 else selfassign(rng) if x < 0.65 else sfn(rng)


def _batch(a):
    seed, n = a
    rng = random.Random(seed)
    d = Driver()
    out = []
    for i in range(n):
        r = Recorder(d)
        r.do(**gen(rng))
        out.append(r.events)
    d.close()
    return out


def run(pid):
    chk = Check(pid)
    build()
    rng = random.Random(SEED)
    cases = gens(chk.model("StringMC", "StringMC3.cfg" if THOROUGH else "StringMC.cfg", workers=NPROC))
    hists = gens(chk.model("ValueMC", "ValueMC.cfg", workers=NPROC))
    cmds = [sfn(rng, x["h"], x["n"], f) for i, x in enumerate(cases) for f in (FNS[1:] if THOROUGH else [FNS[1 + (i + SEED) % 8]])]
    k = 1 if THOROUGH else 20
    cmds += [from_model(rng.choice(["string", "bytes"]), x) for i, x in enumerate(hists) if i % k == SEED % k]
    chk.cov["enumerated_calls"] = len(cmds)
    ok = chk.validate("StringTrace", "StringTrace.cfg", replay(cmds), label="enum")
    rounds = 0
    while ok:
        n = 3000 if THOROUGH else 500
        s = [x for b in pparallel(_batch, [(SEED * 1000 + rounds * 64 + i, n) for i in range(NPROC)]) for x in b]
        ok = chk.validate("StringTrace", "StringTrace.cfg", s, label="rand%d" % rounds)
        rounds += 1
        if not THOROUGH or chk.left(600) < 0:
            break
    return chk.finish()
