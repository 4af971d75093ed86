"""C22: printed arrays (spec/DyndPrint.tla)."""
from common import *
from elwise import replay

INTS = {"int8": (-128, 127), "int16": (-(1 << 15), (1 << 15) - 1), "int32": (-(1 << 31), (1 << 31) - 1), "int64": (-(1 << 63), (1 << 63) - 1),
        "uint8": (0, 255), "uint16": (0, 65535), "uint32": (0, (1 << 32) - 1), "uint64": (0, (1 << 64) - 1)}
OPT = list(INTS) + ["bool", "float32", "float64", "string", "bytes"]
NONA = ("string", "bytes", "uint8", "uint16", "uint64")     # no value of these stands for NA
NA = {t: r[1] if t[0] == "u" else r[0] for t, r in INTS.items() if t not in NONA}
CPS = [0x20, 0x22, 0x27, 0x5c, 0x2c, 0x5b, 0x5d, 0x2e, 8, 9, 10, 12, 13, 1, 0x1f, 0x7e, 0x7f, 0x80, 0xe9, 0xff, 0x100, 0x7ff, 0x800, 0xffff - 2, 0xd7ff, 0xe000, 0x10000, 0x10ffff, 0x1f600]


def b(s):
    return list(s.encode())


def quote(s):
    return s


class T:
    """a type: text, tree, and a maker of values"""

    def __init__(self, tp, ty, val):
        self.tp, self.ty, self.val = tp, ty, val


def text(rng, n):
    return [rng.choice(CPS) if rng.random() < 0.4 else rng.randint(0x20, 0x7e) for i in range(n)]


def leaf(rng, opt=False, wide=None):
    k = rng.random()
    if opt or k < 0.5:
        t = rng.choice(OPT if opt else list(INTS) + ["bool", "float32", "float64"])
        if t == "string":
            return T(t, {"k": "str"}, lambda: text(rng, rng.randint(1, 8)))
        if t == "bytes":
            return T(t, {"k": "bytes"}, lambda: [rng.randrange(256) for i in range(rng.randint(1, 6))])
        if t == "bool":
            return T(t, {"k": "bool"}, lambda: [rng.randint(0, 1)])
        if t.startswith("float"):
            def fv():
                n = rng.randint(-3999, 3999) if rng.random() < 0.7 else rng.randint(-9, 9)
                q, f = divmod(abs(n), 4)
                return b(("-" if n < 0 else "") + str(q) + ["", ".25", ".5", ".75"][f])
            return T(t, {"k": "num"}, fv)
        lo, hi = INTS[t]
        dig = rng.choice([1, 1, 2, 3, 20]) if wide is None else wide

        def iv():
            while True:
                n = rng.choice([lo, hi, lo + 1, 0, -1, 1, rng.randint(lo, hi)]) if rng.random() < 0.1 else rng.randint(-10 ** dig + 1, 10 ** dig - 1)
                n = max(lo, min(hi, n))
                if not (opt and NA.get(t) == n):
                    return b(str(n))
        return T(t, {"k": "num"}, iv)
    if k < 0.75:
        m = rng.choice([0, 1, 2, 3, 8, 20, 28, 30, 40]) if wide is None else wide
        return T("string", {"k": "str"}, lambda: text(rng, rng.randint(0, m)))
    if k < 0.9:
        m = rng.choice([1, 2, 3, 8, 31])
        enc, per = rng.choice([("", 4), (", 'utf16'", 2), (", 'utf32'", 1), (", 'ascii'", 1)])

        def sv():
            v = text(rng, rng.randint(0, m))
            return [x % 128 or 65 for x in v] if "ascii" in enc else v
        return T("fixed_string[%d%s]" % (m * per, enc), {"k": "str"}, sv)
    if k < 0.95:
        m = rng.choice([1, 2, 5, 40])
        return T("bytes", {"k": "bytes"}, lambda: [rng.randrange(256) for i in range(rng.randint(0, m))])
    m = rng.choice([1, 2, 5, 40])
    return T("fixed_bytes[%d]" % m, {"k": "bytes"}, lambda: [rng.randrange(256) for i in range(m)])


def make(rng, depth, budget):
    k = rng.random()
    if depth == 0 or k < 0.3:
        if rng.random() < 0.25:
            t = leaf(rng, True)
            return T("?" + t.tp, {"k": "opt", "el": t.ty}, lambda: [t.val()] if t.tp in NONA or rng.random() < 0.6 else [])
        return leaf(rng)
    if k < 0.45:
        fs = [make(rng, depth - 1, budget // 3) for i in range(rng.randint(1, 3))]
        names = ["x", "y", "z1"]
        tp = "{" + ", ".join("%s: %s" % (n, f.tp) for n, f in zip(names, fs)) + "}" if rng.random() < 0.6 else "(" + ", ".join(f.tp for f in fs) + ")"
        return T(tp, {"k": "rec", "fs": [f.ty for f in fs]}, lambda: [f.val() for f in fs])
    n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 20, 25, 26, 27, 40, 51, 60])
    if rng.random() < 0.1:
        n = rng.choice([90, 150, 240, 251, 260, 300])
    n = min(n, budget)
    el = make(rng, depth - 1, max(1, budget // max(1, n)))
    if rng.random() < 0.6:
        return T("%d * %s" % (n, el.tp), {"k": "dim", "el": el.ty}, lambda: [el.val() for i in range(n)])
    return T("var * " + el.tp, {"k": "dim", "el": el.ty}, lambda: [el.val() for i in range(n if rng.random() < 0.4 else rng.randint(0, n))])


def gen(rng):
    t = make(rng, rng.choice([0, 1, 1, 1, 2, 2, 3]), 300)
    return dict(a="print", tp=t.tp, tb=b(t.tp), ty=t.ty, v=t.val(), w=rng.choice([0, 0, 0, 1, 2, 3, 4, 4, 5, 6, 7]))


def grid(n, w, kind, at=0, aw=0):
    """n elements of width w, the one at place at of width aw"""
    if kind == "str":
        v = [[97 + (i + j) % 26 for j in range((aw if i + 1 == at else w) - 2)] for i in range(n)]
        tp, ty = "%d * string" % n, {"k": "dim", "el": {"k": "str"}}
    else:
        v = [b(str(10 ** (w - 1) + (i * 7 + 1) % (9 * 10 ** (w - 1)))) for i in range(n)]
        tp, ty = "%d * uint64" % n, {"k": "dim", "el": {"k": "num"}}
    return dict(a="print", tp=tp, tb=b(tp), ty=ty, v=v, w=0)


def run(pid):
    chk = Check(pid)
    build()
    rng = random.Random(SEED)
    mc = gens(chk.model("PrintMC", "PrintMC2.cfg" if THOROUGH else "PrintMC.cfg", workers=NPROC))
    cmds = []
    for g in mc:
        if g["k"] == "grid":
            if g["x"][0]:
                cmds.append(grid(g["n"], g["w"], "str", *g["x"]))
            elif g["w"] <= 19:
                cmds.append(grid(g["n"], g["w"], "num"))
            if g["w"] >= 2 and not g["x"][0]:
                cmds.append(grid(g["n"], g["w"], "str"))
        else:       # n rows of m elements of width w
            tp = "%d * %d * string" % (g["n"], g["m"])
            v = [[[97 + (i * 3 + q + j) % 26 for j in range(g["w"] - 2)] for q in range(g["m"])] for i in range(g["n"])]
            cmds.append(dict(a="print", tp=tp, tb=b(tp), ty={"k": "dim", "el": {"k": "dim", "el": {"k": "str"}}}, v=v, w=0))
    # every character at the borders of its kind, alone and as a field
    for cp in range(1, 300):
        cmds.append(dict(a="print", tp="string", tb=b("string"), ty={"k": "str"}, v=[cp, 65, cp], w=0))
    for cp in CPS:
        for tp in ("fixed_string[4, 'utf32']", "fixed_string[16]", "fixed_string[8, 'utf16']"):
            cmds.append(dict(a="print", tp="(%s, bool)" % tp, tb=b("(%s, bool)" % tp), ty={"k": "rec", "fs": [{"k": "str"}, {"k": "bool"}]}, v=[[cp, 65], [1]], w=0))
    chk.cov["enumerated_commands"] = len(cmds)
    ok = chk.validate("PrintTrace", "PrintTrace.cfg", replay(cmds), label="enum")
    rounds = 0
    while ok:
        cmds = [gen(rng) for i in range(1200 if not THOROUGH else 6000)]
        ok = chk.validate("PrintTrace", "PrintTrace.cfg", replay(cmds), label="rand%d" % rounds)
        rounds += 1
        if not THOROUGH or chk.left(600) < 0:
            break
    return chk.finish()
