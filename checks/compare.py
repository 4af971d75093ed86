"""C15: comparison, order, sorting and searching (spec/DyndCompare.tla)."""
from common import *
from elwise import replay
from number import rnd, SIZE, TP
from options import na, HAS_NA
import copy

REAL = ["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"]
OPTS = ["bool", "int8", "int16", "int32", "int64", "float32", "float64"]
TYPES = ["int32", "float64", "3 * int32", "var * int32", "{x: int32}", "{y: int32}", "(int32)", "string", "?int32", "Any", "N * T", "3 * float64"]
PTS = ["a", "b", "z", "A", "\u00e9", "\u20ac", "\uffff", "\U0001f600"]


def el_type(rng, depth=0):
    x = rng.random()
    if depth and x < 0.3 and depth < 3:
        n = rng.choice([0, 1, 2, 2, 3, 5, 9])
        fs = [el_type(rng, depth + 1) for i in range(n)]
        fs = [f if f["k"] != "opt" or rng.random() < 0.05 else f["of"] for f in fs]
        if rng.random() < 0.5:
            return dict(k="tup", fs=fs)
        return dict(k="rec", names=["f%d" % i for i in range(n)], fs=fs)
    if x < 0.65:
        return dict(k="num", n=rng.choice(REAL))
    if x < 0.75:
        return dict(k="opt", of=dict(k="num", n=rng.choice(OPTS)))
    if x < 0.9:
        return dict(k="str")
    if x < 0.94:
        return dict(k="num", n=rng.choice(["complex64", "complex128"]))
    return dict(k=rng.choice(["bytes", "bytes", "type"]))


def el_text(t):
    k = t["k"]
    if k == "num":
        return TP[t["n"]]
    if k == "opt":
        return "?" + TP[t["of"]["n"]]
    if k in ("tup", "rec"):
        if k == "tup":
            return "(" + ", ".join(el_text(f) for f in t["fs"]) + ")"
        return "{" + ", ".join(n + ": " + el_text(f) for n, f in zip(t["names"], t["fs"])) + "}"
    return {"str": "string", "bytes": "bytes", "type": "type"}[k]


def other(rng, t):
    """a type that is or is not compared with t"""
    x = rng.random()
    if x < 0.03:
        return el_type(rng, rng.choice([0, 1]))
    if t["k"] in ("tup", "rec"):
        t = copy.deepcopy(t)
        if x < 0.06:
            if t["fs"] and rng.random() < 0.5:
                t["fs"].pop()
            else:
                t["fs"].append(dict(k="num", n="int32"))
            if "names" in t:
                t["names"] = ["f%d" % i for i in range(len(t["fs"]))]
        elif x < 0.09 and t.get("names"):
            t["names"][0] = "g"
        elif x < 0.4:
            t["fs"] = [other(rng, f) for f in t["fs"]]
        return t
    if t["k"] in ("num", "opt"):
        n = t["n"] if t["k"] == "num" else t["of"]["n"]
        if n.startswith("complex"):
            return t
        u = dict(k="num", n=rng.choice(REAL) if rng.random() < 0.5 else n)
        if rng.random() < (0.5 if t["k"] == "opt" else 0.05) and u["n"] in OPTS:
            return dict(k="opt", of=u)
        return u
    return t


def text(rng):
    n = rng.choice([0, 1, 1, 2, 3, 7, 8, 14, 15, 16, 17, 24])
    return list("".join(rng.choice(PTS) for i in range(n)).encode())


def value(rng, t, cases):
    k = t["k"]
    if k == "num":
        return rnd(rng, t["n"], cases)
    if k == "opt":
        return na(t["of"]["n"]) if rng.random() < 0.3 else value(rng, t["of"], cases)
    if k == "str":
        return text(rng)
    if k == "bytes":
        return [rng.choice([0, 1, 127, 128, 255]) for i in range(rng.choice([0, 1, 2, 8, 15, 16, 17]))]
    if k == "type":
        return list(rng.choice(TYPES).encode())
    return [value(rng, f, cases) for f in t["fs"]]


def near(rng, t, v, u, cases):
    """a value of type u close to the value v of type t"""
    if rng.random() < 0.2:
        return value(rng, u, cases)
    if t["k"] != u["k"]:
        return value(rng, u, cases) if {t["k"], u["k"]} != {"num", "opt"} else conv(rng, t, v, u, cases)
    if t["k"] in ("num", "opt"):
        return conv(rng, t, v, u, cases)
    if t["k"] in ("tup", "rec"):
        if len(t["fs"]) != len(u["fs"]):
            return value(rng, u, cases)
        i = rng.randrange(len(v)) if v and rng.random() < 0.6 else -1
        return [near(rng, f, x, g, cases) if j == i else conv(rng, f, x, g, cases) for j, (f, x, g) in enumerate(zip(t["fs"], v, u["fs"]))]
    v = list(v)
    if v and t["k"] in ("str", "bytes") and rng.random() < 0.5:
        x = rng.random()
        if x < 0.3:
            try:
                w = v[:rng.randrange(len(v))]
                bytes(w).decode()
                return w
            except UnicodeDecodeError:
                return v
        if x < 0.6:
            return v + [rng.choice([97, 122])]
        i = rng.randrange(len(v))
        if v[i] < 127 and v[i] > 32:
            v[i] ^= rng.choice([1, 2, 32]) if t["k"] == "str" else 128
            if v[i] in (0, 127):
                v[i] = 98
    return v


import struct
FMT = {"bool": "<?", "int8": "<b", "int16": "<h", "int32": "<i", "int64": "<q", "uint8": "<B", "uint16": "<H", "uint32": "<I", "uint64": "<Q", "float32": "<f", "float64": "<d"}


def conv(rng, t, v, u, cases):
    if t["k"] in ("tup", "rec"):
        if t["k"] != u["k"] or len(t["fs"]) != len(u["fs"]):
            return value(rng, u, cases)
        return [conv(rng, f, x, g, cases) for f, x, g in zip(t["fs"], v, u["fs"])]
    if t["k"] not in ("num", "opt") or u["k"] not in ("num", "opt"):
        return v if t["k"] == u["k"] else value(rng, u, cases)
    n, m = (x["n"] if x["k"] == "num" else x["of"]["n"] for x in (t, u))
    if n == m:
        return v if u["k"] == "opt" or t["k"] == "num" else value(rng, u, cases) if v == na(n) else v
    if n not in FMT or m not in FMT:
        return value(rng, u, cases)
    x = struct.unpack(FMT[n], bytes(v))[0] if n != "bool" else min(v[0], 1)
    try:
        if m.startswith("float"):
            return list(struct.pack(FMT[m], float(x)))
        x = int(x)
        b = 8 * SIZE[m] if m != "bool" else 1
        y = x % (1 << b)
        if rng.random() < 0.8 and m != "bool" and (y if m[0] == "u" or y < 1 << (b - 1) else y - (1 << b)) != x:
            return value(rng, u, cases)
        return list(y.to_bytes(SIZE[m], "little"))
    except (OverflowError, ValueError):
        return value(rng, u, cases)


def numeric(t):
    return t["k"] == "num" and t["n"] in REAL


def plain(t):
    return t["k"] != "opt" and all(plain(f) for f in t.get("fs", []))


def dims(rng, n):
    """type prefix of n elements"""
    if n == 1 and rng.random() < 0.6:
        return "", 0
    x = rng.random()
    if x < 0.2:
        return "var * ", 1
    if x < 0.4:
        for k in (2, 3):
            if n % k == 0 and n:
                return rng.choice(["%d * %d * " % (k, n // k), "%d * %d * " % (n // k, k)]), 0
    return "%d * " % n, 0


def cmp_cmd(rng, t, u, v, w, same=None):
    n = max(len(v), len(w))
    d, var = dims(rng, n)
    dl = d if len(v) == n else ""
    dr = d if len(w) == n else ""
    if n == 0:
        dl = dr = "0 * "
        var = 0
    if var and rng.random() < 0.3 and len(v) == len(w) and n > 0:
        dr = "%d * " % n
    l = dict(tp=dl + el_text(t), t=t, v=v, w=rng.choice([0, 0, 2, 3]), var=int(dl[:1] == "v"))
    r = dict(tp=dr + el_text(u), t=u, v=w, w=rng.choice([0, 0, 2, 3]), var=int(dr[:1] == "v"))
    ex = int(plain(t) and plain(u))
    al = int(l == r and rng.random() < 0.5)
    ae = int(numeric(t) and numeric(u) and dl == dr and not var and n > 0)
    return dict(a="cmp", l=l, r=r, exact=ex, ae=ae, alias=al)


def gen(rng, cases):
    x = rng.random()
    if x < 0.15:
        return sort_cmd(rng, cases)
    if x < 0.25:
        return search_cmd(rng)
    if x < 0.28:
        t = rng.choice([dict(k="num", n="int32"), dict(k="num", n="bool"), dict(k="str")])
        v = value(rng, t, cases)
        return dict(a="torder", tp=el_text(t), t=t, x=v, y=near(rng, t, v, t, cases))
    t = el_type(rng, rng.choice([0, 1, 1]))
    u = other(rng, t)
    n = rng.choice([1, 1, 2, 3, 4, 6, 0])
    m = rng.choice([n, n, n, 1]) if n > 0 else n
    v = [value(rng, t, cases) for i in range(n)]
    w = [near(rng, t, v[i], u, cases) for i in range(m)]
    if rng.random() < 0.5 and n == m:
        w = [conv(rng, t, x, u, cases) for x in v]
        if rng.random() < 0.5 and n:
            i = rng.randrange(n)
            w[i] = near(rng, t, v[i], u, cases)
    x = rng.random()
    if x < 0.05:      # an array and itself
        u, w = t, v
    elif x < 0.08 and n != 1:    # lengths that do not go together
        w = (w + w + [value(rng, u, cases)])[:rng.choice([k for k in (0, 2, 3, 5) if k != n])]
        a, b = (rng.choice(["var * ", "%d * " % k]) if k else "var * " for k in (n, len(w)))
        l, r = (dict(tp=d + el_text(q), t=q, v=y, w=0, var=int(d[0] == "v")) for d, q, y in ((a, t, v), (b, u, w)))
        return dict(a="cmp", l=l, r=r, exact=int(plain(t) and plain(u)), ae=0, alias=0)
    if rng.random() < 0.3:
        t, u, v, w = u, t, w, v
    return cmp_cmd(rng, t, u, v, w)


def sort_cmd(rng, cases, n=None):
    t = dict(k="str") if rng.random() < 0.25 else dict(k="num", n=rng.choice(REAL))
    n = rng.choice([0, 1, 2, 3, 5, 8, 15, 16, 17, 18, 25, 33, 40]) if n is None else n
    pool = [value(rng, t, cases) for i in range(rng.choice([1, 2, 3, max(n, 1), max(n, 1)]))]
    if rng.random() < 0.9:
        pool = [p for p in pool if not nan(t, p)] or [[0] * SIZE[t["n"]]]
    return dict(a="sort", tp=el_text(t), t=t, w=rng.choice([0, 2, 3, 4]), v=[rng.choice(pool) for i in range(n)])


def nan(t, b):
    if t["k"] != "num" or not t["n"].startswith("float"):
        return False
    x = struct.unpack(FMT[t["n"]], bytes(b))[0]
    return x != x


def key(t):
    return (lambda b: struct.unpack(FMT[t["n"]], bytes(b))[0]) if t["k"] == "num" else (lambda b: bytes(b))


def search_cmd(rng):
    t = rng.choice([dict(k="num", n="int32")] * 2 + [dict(k="str")] * 2 + [dict(k="num", n="bool")])
    n = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 40])
    if t["k"] == "num" and t["n"] == "int32":
        pool = [list((rng.choice([rng.randint(-20, 20), rng.randint(-2**31, 2**31 - 1)]) & 0xffffffff).to_bytes(4, "little")) for i in range(n + 2)]
    elif t["k"] == "num":
        pool = [[0], [1]]
    else:
        pool = [text(rng) if rng.random() < 0.4 else list("".join(rng.choice(PTS[:5]) for i in range(rng.choice([1, 2]))).encode()) for i in range(n + 2)]
    v = sorted((rng.choice(pool) for i in range(n)), key=key(t))
    if rng.random() < 0.1:
        rng.shuffle(v)
    xt = t
    x = rng.choice(pool)
    if rng.random() < 0.08:
        xt = rng.choice([dict(k="num", n="int64"), dict(k="num", n="float64"), dict(k="str"), dict(k="num", n="uint8")])
        if xt != t:
            x = [1] + [0] * 7 if xt["k"] == "num" else [97]
            x = x[:SIZE[xt["n"]]] if xt["k"] == "num" else x
    return dict(a="search", tp=el_text(t), xtp=el_text(xt), t=t, w=rng.choice([0, 2, 3]), v=v, x=x)


def enum_cmds(rng, mc, lists, cases):
    out = []
    k = 0
    for s in REAL:
        for t in REAL:
            ps = [(a, b) for a in cases[s] for b in cases[t]]
            rng.shuffle(ps)
            # equal numbers in both types are rare among all pairs
            eq = [(a, conv(rng, dict(k="num", n=s), a, dict(k="num", n=t), cases)) for a in cases[s]]
            ps = eq + ps[:400 if THOROUGH else 24]
            for i in range(0, len(ps), 8):
                p = ps[i:i + 8]
                out.append(cmp_cmd(rng, dict(k="num", n=s), dict(k="num", n=t), [a for a, b in p], [b for a, b in p]))
    texts = [g for g in mc if g["k"] == "text"]
    rng.shuffle(texts)
    for i in range(0, len(texts), 8):
        p = texts[i:i + 8]
        t = dict(k="str")
        out.append(cmp_cmd(rng, t, t, [g["x"] for g in p], [g["y"] for g in p]))
    rng.shuffle(lists)
    maps = [(dict(k="num", n=n), [struct.pack(FMT[n], x) for x in (0, 1, 2, 7, 100)]) for n in REAL[1:]]
    maps += [(dict(k="num", n=n), [struct.pack(FMT[n], x) for x in (-128, -100, -1, 0, 127)]) for n in ("int8", "int32", "int64", "float32")]
    maps += [(dict(k="str"), [s.encode() for s in ("", "a", "a long text beyond the short ones", "\u00e9", "\U0001f600")])]
    m32 = [m for m in maps if m[0].get("n") == "int32" or m[0]["k"] == "str"]
    for g in lists[:20000 if THOROUGH else 900]:
        t, m = rng.choice(m32 if g["k"] == "search" else maps)
        m = [list(b) for b in m]
        if g["k"] == "search":
            out.append(dict(a="search", tp=el_text(t), xtp=el_text(t), t=t, w=rng.choice([0, 2, 3]), v=[m[i] for i in g["l"]], x=m[g["v"]]))
        else:
            out.append(dict(a="sort", tp=el_text(t), t=t, w=rng.choice([0, 2, 3, 4]), v=[m[i] for i in g["l"]]))
    return out


def _batch(a):
    seed, n, cases = a
    rng = random.Random(seed)
    d = Driver()
    out = []
    for i in range(n):
        r = Recorder(d)
        r.do(**gen(rng, cases))
        out.append(r.events)
    d.close()
    return out


def run(pid):
    chk = Check(pid)
    build()
    rng = random.Random(SEED)
    mc = gens(chk.model("CompareMC", "CompareMC3.cfg" if THOROUGH else "CompareMC.cfg", workers=NPROC))
    cases = [g for g in mc if g["k"] == "num"][0]["c"]
    lists = gens(chk.model("SearchMC", "SearchMC.cfg", workers=NPROC))
    if THOROUGH:
        lists += gens(chk.model("SearchMC", "SearchMC6.cfg", workers=NPROC))
    cmds = enum_cmds(rng, mc, lists, cases)
    chk.cov["enumerated_calls"] = len(cmds)
    ok = chk.validate("CompareTrace", "CompareTrace.cfg", replay(cmds), label="enum")
    u = replay([dict(a="unique", tp="int32", t=dict(k="num", n="int32"), v=[[x, 0, 0, 0] for x in (0, 0, 1, 2, 2, 3)])])
    if u[0][0]["r"]["e"] == "CRASH" and any("nd::unique" in k for k in load_known(pid)):
        print("KNOWN-FINDING: property=%s nd::unique of an array ends the process: it is registered without the kernel it calls" % pid)
    elif ok:
        ok = chk.validate("CompareTrace", "CompareTrace.cfg", u, label="unique")
    rounds = 0
    while ok:
        n = 2000 if THOROUGH else 450
        s = [x for b in pparallel(_batch, [(SEED * 1000 + rounds * 64 + i, n, cases) for i in range(NPROC)]) for x in b]
        ok = chk.validate("CompareTrace", "CompareTrace.cfg", s, label="rand%d" % rounds)
        rounds += 1
        if not THOROUGH or chk.left(600) < 0:
            break
    return chk.finish()
