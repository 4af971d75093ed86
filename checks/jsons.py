"""C11: JSON texts (spec/DyndJson.tla)."""
from common import *
from elwise import replay
from number import MODES
import texts

NUMS = ["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"]
OPTS = ["bool", "int8", "int16", "int32", "int64", "uint32", "float32", "float64"]
ENCS = ["ascii", "utf8", "utf16", "utf32", "ucs2"]
NAMES = ["x", "y", "a b", "", "\u00e9", "x1", "\"q", "\\", "long_field_name_over_15_bytes", "\U0001f600"]
CHARS = ["a", "b", "Z", "0", " ", "/", "\\", '"', "\n", "\t", "\u0001", "\u007f", "\u00e9", "\u20ac", "\ud7ff", "\ue000", "\uffff", "\U00010000", "\U0001f600", "\U0010ffff", "{", "]", ","]


def rtype(rng, depth, callable=False):
    x = rng.random()
    if depth <= 0 or x < 0.2:
        y = rng.random()
        if y < 0.55:
            return dict(k="num", n=rng.choice(NUMS[:9] if callable else NUMS))
        if y < 0.72:
            return dict(k="opt", of=dict(k="num", n=rng.choice(OPTS[:6] if callable else OPTS)))
        if y < 0.9 or callable:
            return dict(k="str")
        if y < 0.96:
            return dict(k="fstr", n=rng.choice([1, 3, 8]), e=rng.choice(["ascii", "utf8", "utf16", "utf32"]))
        return dict(k="opt", of=dict(k="str"))
    if x < 0.42:
        return dict(k="fix", n=rng.choice([0, 1, 2, 3, 3]), of=rtype(rng, depth - 1, callable))
    if x < 0.7:
        return dict(k="var", of=rtype(rng, depth - 1, callable))
    n = rng.choice([1, 2, 2, 3, 4])
    fs = [rtype(rng, depth - 1, callable) for i in range(n)]
    if x < 0.95 or callable:
        names = rng.sample(NAMES[:6] if rng.random() < 0.6 else NAMES, n)
        names = [s if s not in ("", "\\") or rng.random() < 0.3 else s + "n%d" % i for i, s in enumerate(names)]
        return dict(k="rec", names=names, fs=fs)
    return dict(k="tup", fs=fs)


def quote1(s):
    return "'" + "".join({"\\": "\\\\", "'": "\\'"}.get(ch, ch) for ch in s) + "'"


def tstr(t):
    k = t["k"]
    if k == "num":
        return t["n"]
    if k == "str":
        return "string"
    if k == "fstr":
        return "fixed_string[%d,'%s']" % (t["n"], t["e"])
    if k == "opt":
        return "?" + tstr(t["of"])
    if k == "fix":
        return "%d * %s" % (t["n"], tstr(t["of"]))
    if k == "var":
        return "var * " + tstr(t["of"])
    if k == "rec":
        return "{" + ", ".join(quote1(n) + ": " + tstr(f) for n, f in zip(t["names"], t["fs"])) + "}"
    return "(" + ", ".join(tstr(f) for f in t["fs"]) + ")"


def tnode(t):
    t = dict(t)
    if "names" in t:
        t["names"] = [list(n.encode()) for n in t["names"]]
    if "of" in t:
        t["of"] = tnode(t["of"])
    if "fs" in t:
        t["fs"] = [tnode(f) for f in t["fs"]]
    return t


def sp(rng):
    return "" if rng.random() < 0.8 else rng.choice([" ", "\n", "\t", "  ", "\r\n", " \n "]) if rng.random() < 0.98 else "\x0b"


def qstr(rng, s, esc=None):
    esc = rng.choice([0, 0, 0.1, 0.5, 1]) if esc is None else esc
    o = '"'
    for ch in s:
        cp = ord(ch)
        if ch in '"\\' or cp < 32 or rng.random() < esc:
            m = {'"': '\\"', "\\": "\\\\", "\n": "\\n", "\t": "\\t", "\r": "\\r", "\b": "\\b", "\f": "\\f", "/": "\\/"}
            if ch in m and rng.random() < 0.6:
                o += m[ch]
            else:
                us = [cp] if cp < 0x10000 else [0xd800 + ((cp - 0x10000) >> 10), 0xdc00 + ((cp - 0x10000) & 0x3ff)]
                for u in us:
                    h = "%04x" % u
                    o += "\\u" + (h.upper() if rng.random() < 0.5 else h)
        else:
            o += ch
    return o + '"'


def rstr(rng):
    x = rng.random()
    if x < 0.1:
        return rng.choice(["", "NA", "null", "true", "12", "None"])
    n = rng.choice([0, 1, 2, 3, 7, 8, 14, 15, 16, 17, 30])
    return "".join(rng.choice(CHARS[:5] if rng.random() < 0.6 else CHARS) for i in range(n))


def isnum(w):
    import re
    return re.fullmatch(r"-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?", w) is not None


FITS = dict(int8=(-127, 127), int16=(-32767, 32767), int32=(-2**31 + 1, 2**31 - 1), int64=(-2**63 + 1, 2**63 - 1),
            uint8=(0, 255), uint16=(0, 65535), uint32=(0, 2**32 - 2), uint64=(0, 2**64 - 1))


def num(rng, n, env):
    x = rng.random()
    if n == "bool":
        return rng.choice(["true", "false", "true", "false", "1", "0"] + (["null", "2", "-1", "1.0", '"yes"', "10", "true1", '"\\u0074rue"'] if x < 0.15 else []))
    if x < 0.8 and n in FITS:
        lo, hi = FITS[n]
        return str(rng.choice([lo, hi, 0, 1, rng.randint(lo, hi), rng.randint(max(lo, -100), 100), -1 if lo < 0 else 7]))
    if x < 0.97:
        for i in range(20):
            w = texts.text(rng, *env)
            if len(w) < 60 and (isnum(w) or rng.random() < 0.02):
                break
        if rng.random() < 0.12 and not any(ord(ch) < 32 or ch in '"\\' for ch in w):
            return qstr(rng, w)
        return w
    return rng.choice(["null", "true", '""', '"NA"', "[]", "{}", "01", "-", "1.", ".5", "+1", "1e", "0x1", "nan", "[1]", '"1"', "--1", "-01", "00"])


def value(rng, t, env, bad):
    """a text for t; with a small chance for something else"""
    k = t["k"]
    if rng.random() < bad:
        t = rtype(rng, 1)
        k = t["k"]
    if k == "num":
        return num(rng, t["n"], env)
    if k in ("str", "fstr"):
        s = rstr(rng)
        if k == "fstr" and rng.random() < 0.9:
            s = s[:t["n"]]
            if rng.random() < 0.7:
                s = "".join(ch for ch in s if ord(ch) < 128)
        return qstr(rng, s)
    if k == "opt":
        x = rng.random()
        if x < 0.3:
            return "null"
        if x < 0.4:
            return rng.choice(['"NA"', '""', '"null"', '"None"', '"\\u004eA"', '"NULL"'])
        return value(rng, t["of"], env, 0)
    if k in ("fix", "var"):
        n = t["n"] if k == "fix" else rng.choice([0, 1, 2, 3, 3, 7, 8, 9, 17, 20] if t["of"]["k"] in ("num", "str", "opt") else [0, 1, 2, 3])
        if rng.random() < bad:
            n = max(0, n + rng.choice([-1, 1]))
        return "[" + sp(rng) + ("," + sp(rng)).join(value(rng, t["of"], env, bad) + sp(rng) for i in range(n)) + "]"
    if k == "tup" or (k == "rec" and rng.random() < 0.2):
        xs = [value(rng, f, env, bad) for f in t["fs"]]
        if rng.random() < bad:
            xs = xs[:-1] if rng.random() < 0.5 else xs + ["1"]
        return "[" + sp(rng) + ("," + sp(rng)).join(x + sp(rng) for x in xs) + "]"
    kv = [(n, value(rng, f, env, bad), f) for n, f in zip(t["names"], t["fs"])]
    kv = [e for e in kv if not (e[2]["k"] == "opt" and rng.random() < 0.3)]
    if rng.random() < bad and kv:
        kv.pop(rng.randrange(len(kv)))
    if rng.random() < 0.12:
        u = rng.choice(["zz", "X", "x ", "\u00e8", ""])
        if u not in t["names"]:
            kv.append((u, value(rng, rtype(rng, 2), env, 0), None))
    if rng.random() < 0.03 and kv:
        kv.append(rng.choice(kv))
    if rng.random() < 0.6:
        rng.shuffle(kv)
    return "{" + sp(rng) + ("," + sp(rng)).join(sp(rng) + qstr(rng, n) + sp(rng) + ":" + sp(rng) + v + sp(rng) for n, v, f in kv) + "}"


def mutate(rng, s):
    if not s:
        return s
    i = rng.randrange(len(s))
    x = rng.random()
    if x < 0.4:
        return s[:i] + s[i + 1:]
    if x < 0.6:
        return s[:i]
    if x < 0.85:
        return s[:i] + rng.choice(list('[]{},:"\\01e.-n tu')) + s[i:]
    return s + rng.choice([" ", "]", "}", ",", "x", "1", "\n", " null"])


def long_array(rng):
    """arrays whose memory has to grow while they are read, several times"""
    t, el, lo = rng.choice([(dict(k="num", n="int64"), ["1", "0", "7"], 257), (dict(k="opt", of=dict(k="num", n="int64")), ["1", "0", "7", "null"], 257),
                            (dict(k="str"), ['""', '"a"', '"0123456789abcdef"'], 65), (dict(k="fstr", n=8, e="utf32"), ['""', '"a"', '"1234567"'], 65),
                            (dict(k="fstr", n=30, e="utf16"), ['""', '"a"', '"1234567"'], 35), (dict(k="var", of=dict(k="num", n="int8")), ["[]", "[1]", "[2]"], 65),
                            (dict(k="var", of=dict(k="str")), ["[]", '["a"]'], 65),
                            (dict(k="fix", n=20, of=dict(k="num", n="float64")), ["[1" + ",2" * 19 + "]"], 13)])
    n = rng.choice([lo - 1, lo, lo, lo + 1, lo + rng.randrange(max(8, lo // 2))])
    w = [1] + [0.2] * (len(el) - 1) if rng.random() < 0.7 else [1] * len(el)
    els = rng.choices(el, w, k=n)
    t = dict(k="var", of=t)
    text = "[" + ",".join(els) + "]"
    if rng.random() < 0.3:
        t = dict(k="rec", names=["a", "b"], fs=[dict(k="var", of=dict(k="num", n="int8")), t])
        text = '{"a":[1,2],"b":%s}' % text
    elif rng.random() < 0.3:
        t = dict(k="var", of=t)
        text = "[%s,[]]" % text
    return dict(a="json", tp=tstr(t), t=tnode(t), way=rng.choice(["parse", "parse", "out"]), mode="none", text=list(text.encode()), hist=[])


def gen(rng, env):
    if rng.random() < 0.12:
        t = rtype(rng, 3)
        s = sp(rng) + value(rng, t, env, 0.05) + sp(rng)
        if rng.random() < 0.5:
            s = mutate(rng, s)
        if len(s.encode()) < 300:
            return dict(a="jvalid", text=list(s.encode()))
    way = rng.choice(["parse"] * 3 + ["out", "array", "callable"])
    if rng.random() < 0.03:
        return long_array(rng)
    while True:
        t = rtype(rng, 0 if way == "callable" else rng.choice([0, 1, 2, 2, 3]), way == "callable")
        s = sp(rng) + value(rng, t, env, rng.choice([0, 0, 0, 0.04])) + sp(rng)
        if rng.random() < 0.12:
            s = mutate(rng, s)
        if len(s.encode()) < 350:
            break
    c = dict(a="json", tp=tstr(t), t=tnode(t), way=way, mode=rng.choice(["none"] * 5 + MODES[:4]), text=list(s.encode()))
    if way == "array":
        c["enc"] = rng.choice(["bytes", "string"])
    if way == "out":
        c["hist"] = list((value(rng, t, env, 0) if rng.random() < 0.6 else "").encode())
    return c


def _batch(a):
    seed, n, env = a
    rng = random.Random(seed)
    d = Driver()
    out = []
    for i in range(n):
        r = Recorder(d)
        r.do(**gen(rng, env))
        out.append(r.events)
    d.close()
    return out


TREE_TYPES = [dict(k="num", n="int8"), dict(k="opt", of=dict(k="num", n="int32")), dict(k="str"), dict(k="num", n="float64"),
              dict(k="fix", n=1, of=dict(k="num", n="int8")), dict(k="fix", n=2, of=dict(k="str")), dict(k="var", of=dict(k="opt", of=dict(k="num", n="int8"))),
              dict(k="var", of=dict(k="var", of=dict(k="num", n="int16"))), dict(k="rec", names=["a", "b"], fs=[dict(k="num", n="int8"), dict(k="opt", of=dict(k="num", n="int8"))]),
              dict(k="rec", names=["b", "a"], fs=[dict(k="str"), dict(k="var", of=dict(k="num", n="int8"))]), dict(k="tup", fs=[dict(k="num", n="int8"), dict(k="str")]),
              dict(k="var", of=dict(k="rec", names=["b"], fs=[dict(k="opt", of=dict(k="num", n="int8"))])), dict(k="rec", names=["a"], fs=[dict(k="var", of=dict(k="str"))])]
FLAT_TYPES = [dict(k="str"), dict(k="num", n="float64"), dict(k="num", n="int16"), dict(k="opt", of=dict(k="num", n="float32")), dict(k="var", of=dict(k="num", n="int32")),
              dict(k="num", n="bool"), dict(k="fstr", n=8, e="utf16"), dict(k="var", of=dict(k="str"))]


def fits(t, v):
    """the shape of a parsed text is one the type takes, roughly; only used to choose what is replayed"""
    if t["k"] in ("fix", "var"):
        return isinstance(v, list)
    if t["k"] in ("rec", "tup"):
        return isinstance(v, dict if t["k"] == "rec" else list)
    if t["k"] in ("str", "fstr"):
        return isinstance(v, str)
    return not isinstance(v, (list, dict))


def enum_cmds(rng, cases, types, limit):
    good = [g["t"] for g in cases if g["ok"]]
    bad = [g["t"] for g in cases if not g["ok"]]
    rng.shuffle(good)
    rng.shuffle(bad)
    out = []
    for text in good[:limit] + bad[:limit // 2]:
        b = bytes(text)
        try:
            v = json.loads(b)
            ts = [t for t in types if fits(t, v)] or types
        except ValueError:
            ts = types
        out.append(dict(a="jvalid", text=text))
        for t in rng.sample(ts, min(2, len(ts))) + [rng.choice(types)]:
            c = dict(a="json", tp=tstr(t), t=tnode(t), way=rng.choice(["parse", "parse", "out", "array"]), mode="none", text=text)
            if c["way"] == "array":
                c["enc"] = rng.choice(["bytes", "string"])
                try:
                    b.decode()
                except UnicodeDecodeError:
                    c["enc"] = "bytes"
            if c["way"] == "out":
                c["hist"] = rng.choice(good) if rng.random() < 0.5 else []
            out.append(c)
    return out


def run(pid):
    chk = Check(pid)
    build()
    rng = random.Random(SEED)
    o = chk.model("TextMC", "TextMC.cfg", workers=NPROC)
    edge = [json.loads(json.loads(ln)[5:]) for ln in o.splitlines() if ln.startswith('"EDGE ')][0]
    env = (edge, gens(o))
    cmds = []
    for cfg, types in (("JsonMC", TREE_TYPES), ("JsonMCStr", FLAT_TYPES), ("JsonMCNum", FLAT_TYPES)):
        cases = gens(chk.model("JsonMC", cfg + ".cfg", workers=NPROC))
        cmds += enum_cmds(rng, cases, types, 20000 if THOROUGH else 700)
    chk.cov["enumerated_calls"] = len(cmds)
    ok = chk.validate("JsonTrace", "JsonTrace.cfg", replay(cmds), label="enum")
    rounds = 0
    while ok:
        n = 1200 if THOROUGH else 320
        s = [x for b in pparallel(_batch, [(SEED * 1000 + rounds * 64 + i, n, env) for i in range(NPROC)]) for x in b]
        ok = chk.validate("JsonTrace", "JsonTrace.cfg", s, label="rand%d" % rounds)
        rounds += 1
        if not THOROUGH or chk.left(600) < 0:
            break
    return chk.finish()
