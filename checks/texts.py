"""C18: texts stored in numbers (spec/DyndText.tla)."""
from common import *
from elwise import replay
from number import TP, MODES, SIZE
import struct

UINTS = ["uint8", "uint16", "uint32", "uint64"]
INTS = ["int8", "int16", "int32", "int64"] + UINTS
TARGETS = INTS + ["float32", "float64", "bool"]
OPTS = ["bool", "int8", "int16", "int32", "int64", "uint32", "float32", "float64"]
ESC = 0.1
WORDS = ["true", "True", "TRUE", "t", "T", "f", "F", "y", "n", "yes", "no", "on", "off", "YES", "No", "oFf", "false", "FALSE", "1", "0", "nan", "NaN",
         "-nan", "inf", "-Inf", "infinity", "-INFINITY", "NA", "null", "None", "", "-", ".", "e5", "abc", "tru", "truex", "nope", "1e000", "1e02", "2e0001", "1E+00002", "10e-0001", "1e00000000018", "1a", "a1", "--1",
         "1-", "1..2", "1e", "1e+", "5.e", "1.5.2", "- 1", "1 ", "12 34", "na", "in", "infin", "NANA", "1,000", "0b1", "1e5e5", "+1", " 7", "0x10", "ten"]


def text(rng, edge, small):
    x = rng.random()
    if x < 0.12:
        return rng.choice(WORDS)
    if x < 0.24:
        return bytes(rng.choice(small)).decode()
    sg = "-" if rng.random() < 0.35 else ""
    if x < 0.5:
        t = sg + "0" * rng.choice([0, 0, 0, 1, 3, 30]) + bytes(rng.choice(edge)).decode()
        if rng.random() < 0.2:
            t += rng.choice(["0", "00", ".", ".0", ".000", "e0", "E+0", "e1", "5", ".5", "e-1", "0e-1", "e2", "e15"])
        return t
    if x < 0.6:
        return sg + str(rng.getrandbits(rng.randint(1, 80)))
    if x < 0.7:
        return sg + str(rng.randint(0, 99)) + rng.choice(["", "e%d" % rng.randint(0, 25), "e" + rng.choice(["", "+", "-"]) + "0" * rng.randint(1, 6) + str(rng.randint(0, 20)), "E+%d" % rng.randint(0, 21), ".0e%d" % rng.randint(0, 3)])
    if x < 0.8:
        f = rng.choice(["<f", "<d"])
        b = bytes(rng.randrange(256) for i in range(struct.calcsize(f)))
        v = struct.unpack(f, b)[0]
        if v != v or abs(v) == float("inf"):
            v = 1.5
        if abs(v) > 1e60 or 0 < abs(v) < 1e-60:
            v = v / 10.0 ** int(__import__("math").log10(abs(v)))
        if abs(v) > 1e38:
            v = 1.1
        # near the middle between two numbers
        if rng.random() < 0.5:
            n = struct.unpack("<f", struct.pack("<f", v))[0]
            import decimal
            decimal.getcontext().prec = 200
            m = (decimal.Decimal(n) + decimal.Decimal(struct.unpack("<f", struct.pack("<I", (struct.unpack("<I", struct.pack("<f", n))[0] + 1) & 0xffffffff))[0])) / 2
            return str(m) if m.is_finite() and len(str(m)) < 90 else "1"
        return repr(v)
    if x < 0.97:
        d = "".join(rng.choice("0123456789") for i in range(rng.choice([1, 2, 5, 9, 17, 18, 25])))
        if rng.random() < 0.7:
            k = rng.randint(0, len(d))
            d = d[:k] + "." + d[k:]
        if rng.random() < 0.6:
            d += rng.choice("eE") + rng.choice(["", "+", "-", "-"]) + str(rng.choice([rng.randint(0, 30), rng.randint(30, 60)]))
        return sg + d
    return sg + rng.choice(["1e400", "1e-400", "1.7976931348623157e308", "1.7976931348623159e308", "4.9e-324", "2e-324", "3.4028235e38", "3.4028236e38", "1e39",
                            "2.2250738585072011e-308", "1.1754943e-38", "1e-45", "1e99", "1e100", "1e123456789"])


def mutate(rng, t):
    if t and rng.random() < 0.12:
        k = rng.randrange(len(t))
        t = t[:k] + rng.choice([rng.choice("0123456789.-+eE x"), ""]) + t[k + rng.randrange(2):]
    return t


def cmd(rng, ws, dt=None, hist=None):
    dt = dt or rng.choice(TARGETS)
    do = int(dt in OPTS and rng.random() < 0.2)
    n = max(len(w) for w in ws)
    st = rng.choice(["string"] * 4 + ["fixed_string[%d,'%s']" % (n + rng.choice([0, 0, 1, 7]) or 1, rng.choice(["ascii", "utf8", "utf16", "utf32"]))])
    if hist is None:
        hist = [rng.choice(["9" * rng.randint(1, 40), "e5", "77777.123456789", "1e5e5e5e5e5e5e5", "9" * 15, ""]) for i in range(rng.choice([0, 0, 1, 2]))]
    way = rng.choice(["assign", "assign", "quoted"]) if not any(ord(ch) < 32 or ch in '"\\\\' for w in ws for ch in w) else "assign"
    if way == "assign" and dt in UINTS and rng.random() < 0.9:
        way = "quoted"
    if way == "assign" and st != "string" and dt not in INTS and rng.random() < 0.9:
        st = "string"
    return dict(a="text", way=way, sk=st[:6] if st == "string" else "fixed", esc=int(rng.random() < ESC), st=st, dt=dt, do=do, stp=st, dtp="?" * do + dt, mode=rng.choice(MODES + ["none"] * 4),
                hist=[list(h.encode()) for h in hist] if st == "string" else [], ws=[list(w.encode()) for w in ws],
                scalar=int(len(ws) == 1 and rng.random() < 0.5), sw=rng.choice([0, 0, 2, 3]), dw=rng.choice([0, 0, 2, 3]))


def gen(rng, edge, small):
    n = rng.choice([1, 1, 1, 2, 4])
    dt = rng.choice(TARGETS)
    while True:
        ws = [mutate(rng, text(rng, edge, small)) for i in range(n)]
        if max(len(w) for w in ws) <= 120:
            return cmd(rng, ws, dt)


def enum_cmds(rng, edge, small):
    out = []
    small = [bytes(w).decode() for w in small]
    edge = [bytes(w).decode() for w in edge]
    for i, w in enumerate(small):
        ts = rng.sample(TARGETS, 2) if not THOROUGH else TARGETS
        out += [cmd(rng, [w], t) for t in ts]
    for w in edge:
        for sg in ["", "-"]:
            out += [cmd(rng, [sg + w], t) for t in INTS]
        out.append(cmd(rng, [w], rng.choice(["float32", "float64"])))
    for w in WORDS:
        out += [cmd(rng, [w], t) for t in (TARGETS if THOROUGH else ["bool", "float64", "float32"] + rng.sample(INTS, 3))]
    return out


PAIRS = [("bool", "num", 0), ("int8", "num", 0), ("int32", "num", 0), ("int64", "num", 0), ("uint16", "num", 0), ("uint64", "num", 0), ("float32", "num", 0),
         ("float64", "num", 0), ("complex[float64]", "num", 0), ("?int32", "opt", 0), ("?float64", "opt", 0), ("?complex[float64]", "opt", 0), ("string", "text", 0),
         ("fixed_string[4]", "text", 0), ("fixed_string[3,'utf16']", "text", 0), ("?string", "text", 0), ("bytes", "bytes", 0), ("type", "type", 0),
         ("{x: int32}", "record", 1), ("{x: int32, y: string}", "record", 2), ("{y: string}", "record", 1), ("(int32)", "tuple", 1), ("(int32, string)", "tuple", 2), ("()", "tuple", 0),
         ("float16", "odd", 0), ("int128", "odd", 0), ("uint128", "odd", 0), ("char", "odd", 0), ("void", "odd", 0), ("?int128", "odd", 0), ("?void", "odd", 0)]


def pair(rng, s, d, mode=None):
    def dims(k):
        return rng.choice(["", "", "3 * ", "1 * ", "3 * 1 * ", "3 * 3 * "])
    ds, dd = dims(s), dims(d)
    if s[0].endswith("void") or d[0].endswith("void"):
        ds = dd = ""
    return dict(a="pair", s=ds + s[0], d=dd + d[0], sk=s[1], dk=d[1], snf=s[2], dnf=d[2], st=s[0], dt=d[0], ss=[int(x) for x in ds.split("*")[:-1]], ds=[int(x) for x in dd.split("*")[:-1]], mode=mode or rng.choice(["none"] + MODES))


def pair_cmds(rng):
    return [pair(rng, s, d, m) for s in PAIRS for d in PAIRS for m in (["none"] + MODES if THOROUGH else [None])]


def _batch(a):
    seed, n, edge, small = a
    rng = random.Random(seed)
    d = Driver()
    out = []
    for i in range(n):
        r = Recorder(d)
        r.do(**gen(rng, edge, small))
        out.append(r.events)
    d.close()
    return out


def run(pid):
    chk = Check(pid)
    build()
    o = chk.model("TextMC", "TextMC.cfg", workers=NPROC)
    small = gens(o)
    edge = [json.loads(json.loads(ln)[5:]) for ln in o.splitlines() if ln.startswith('"EDGE ')][0]
    cmds = enum_cmds(random.Random(SEED), edge, small)
    cmds += pair_cmds(random.Random(SEED))
    chk.cov["enumerated_calls"] = len(cmds)
    ok = chk.validate("TextTrace", "TextTrace.cfg", replay(cmds), label="enum")
    rounds = 0
    while ok:
        n = 2000 if THOROUGH else 400
        s = [x for b in pparallel(_batch, [(SEED * 1000 + rounds * 64 + i, n, edge, small) for i in range(NPROC)]) for x in b]
        ok = chk.validate("TextTrace", "TextTrace.cfg", s, label="rand%d" % rounds)
        rounds += 1
        if not THOROUGH or chk.left(600) < 0:
            break
    return chk.finish()
