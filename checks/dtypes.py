"""C08, C09: types: datashape text, structure, equality, matching, substitution (spec/DyndType.tla)."""
from common import *
from elwise import replay

PRIM = ["bool", "int8", "int16", "int32", "int64", "int128", "uint8", "uint16", "uint32", "uint64", "uint128",
        "float16", "float32", "float64", "float128", "complex64", "complex128", "complex32", "void", "string", "type", "bytes", "char", "array",
        "int", "real", "complex", "intptr", "uintptr", "size"]
KIND = ["Any", "Scalar", "Bool", "Int", "UInt", "Float", "Complex", "Bytes", "FixedBytes", "String", "FixedString",
        "Categorical", "State"]
ENC = ["A", "ascii", "us-ascii", "U8", "utf8", "utf-8", "utf_8", "U16", "utf16", "utf-16", "utf_16", "U32", "utf32", "utf-32", "utf_32",
       "ucs2", "ucs-2", "ucs_2"]
NAMES = ["x", "y", "z", "f0", "abc", "_a", "Xy", "type", "int32", "var"]
QNAMES = ["x", "a b", "", "0x", "quo\"te", "q'", "\\n\n", "tab\t", "e\u00e9", "\u20ac", "\U0001f600", "...", "a-b"]
UP = ["T", "S", "N", "Dims", "A_1", "TT"]


def P(v):
    return {"t": "p", "v": v, "n": 0}


def NAME(v):
    return {"t": "up" if v[0].isupper() else "lo", "v": v, "n": 0}


def NUM(n):
    return {"t": "num", "v": "", "n": n}


def Q(v):
    return {"t": "q", "v": v.encode().decode("latin-1"), "n": 0}


def commas(rng, items, more=False):
    out = []
    for i, it in enumerate(items):
        if i:
            out.append(P(","))
        out += it
    if items and not more and rng.random() < 0.15:
        out.append(P(","))
    return out


def toks(rng, depth, sym=0.5):
    """random text of a type, as tokens"""
    x = rng.random()
    sub = lambda: toks(rng, depth - 1, sym)
    if depth <= 0 or x < 0.12:
        y = rng.random()
        if y < 0.6 or (sym == 0 and y < 0.75):
            return [NAME(rng.choice(PRIM))]
        if y < 0.75:
            return [NAME(rng.choice(KIND))] if rng.random() < 0.5 else [NAME(rng.choice(UP))]
        if y < 0.8:
            return [NAME("bytes"), P("["), NAME("align"), P("="), NUM(rng.choice([1, 2, 4, 8, 16, 3, 32])), P("]")]
        if y < 0.87:
            o = [NAME("fixed_bytes"), P("["), NUM(rng.choice([1, 2, 3, 4, 8, 12, 16, 24]))]
            if rng.random() < 0.6:
                o += [P(","), NAME("align"), P("="), NUM(rng.choice([1, 1, 2, 4, 8, 16, 3]))]
            return o + [P("]")]
        if y < 0.95:
            o = [NAME("fixed_string"), P("["), NUM(rng.choice([1, 2, 5, 10, 100]))]
            if rng.random() < 0.6:
                o += [P(","), Q(rng.choice(ENC))]
            return o + [P("]")]
        if y < 0.98:
            return [NAME("char"), P("["), Q(rng.choice(ENC)), P("]")]
        return [NAME("complex"), P("["), NAME(rng.choice(["float32", "float64"])), P("]")]
    if x < 0.5:
        y = rng.random()
        if y < 0.4:
            n = NUM(rng.choice([0, 1, 2, 3, 4, 5, 10, 37]))
            d = [n] if rng.random() < 0.8 else [NAME("fixed"), P("["), n, P("]")]
        elif y < 0.6 or sym == 0:
            d = [NAME("var")]
        elif y < 0.7:
            d = [NAME("Fixed")]
        elif y < 0.75:
            d = [NAME("Dim")]
        elif y < 0.87:
            d = [NAME(rng.choice(UP))]
        elif y < 0.94:
            d = ([NAME(rng.choice(UP))] if rng.random() < 0.6 else []) + [P("...")]
        else:
            b = rng.choice([NUM(rng.choice([0, 1, 3])), NAME("var"), NAME("Fixed"), NAME(rng.choice(UP))])
            e = rng.choice([NUM(rng.choice([1, 2, 3])), NAME(rng.choice(UP))])
            d = [b, P("**"), e]
        if rng.random() < 0.06:
            d = [rng.choice([NUM(rng.choice([0, 2, 3])), NAME("var")]), P("**"), NUM(rng.choice([1, 2, 3]))]
        return d + [P("*")] + sub()
    if x < 0.58:
        return [P("?")] + sub() if rng.random() < 0.7 else [NAME("option"), P("[")] + sub() + [P("]")]
    if x < 0.64:
        return [NAME("pointer"), P("[")] + sub() + [P("]")]
    if x < 0.76:
        fs = [([NAME(rng.choice(NAMES))] if rng.random() < 0.7 else [Q(rng.choice(QNAMES))]) + [P(":")] + sub()
              for i in range(rng.choice([0, 1, 2, 3]))]
        if sym and rng.random() < 0.2:
            fs.append([P("...")])
            return [P("{")] + commas(rng, fs, True) + [P("}")]
        return [P("{")] + commas(rng, fs) + [P("}")]
    if x < 0.86 or sym == 0:
        fs = [sub() for i in range(rng.choice([0, 1, 2, 3]))]
        if sym and rng.random() < 0.2:
            fs.append([P("...")])
            return [P("(")] + commas(rng, fs, True) + [P(")")]
        return [P("(")] + commas(rng, fs) + [P(")")]
    if x < 0.96:
        fs = [sub() for i in range(rng.choice([0, 1, 2]))]
        if rng.random() < 0.2:
            fs.append([P("...")])
        kw = [[NAME(n), P(":")] + sub() for n in rng.sample(NAMES[:7], rng.choice([0, 0, 1, 2]))]
        more = bool(fs) and fs[-1][0]["v"] == "..." and not kw
        if kw and rng.random() < 0.2:
            kw.append([P("...")])
            more = True
        return [P("(")] + commas(rng, fs + kw, more) + [P(")"), P("->")] + sub()
    return [NAME(rng.choice(UP)), P("[")] + sub() + [P("]")]


def esc(rng, s):
    s = s.encode("latin-1").decode()
    q = rng.choice("\"'")
    o = q
    for ch in s:
        if ch == q or ch == "\\":
            o += "\\" + ch
        elif ch == "\n":
            o += "\\n"
        elif ch == "\t":
            o += "\\t"
        elif ord(ch) > 126:
            r = rng.random()
            o += ch if r < 0.4 else ("\\u%04x" % ord(ch) if ord(ch) < 65536 else "\\U%08x" % ord(ch))
        else:
            o += ch if rng.random() < 0.95 else "\\u%04X" % ord(ch)
    return o + q


def word(t):
    return t["t"] in ("lo", "up", "num")


def text(rng, ts):
    o = ""
    for i, t in enumerate(ts):
        if i:
            p = ts[i - 1]
            must = (word(p) and word(t)) or (p["v"] in ("*", "-", ".", "**") and t["v"] in ("*", "**", ">", "...")) or p["v"] == "..." == t["v"]
            w = rng.random()
            if must or w < 0.35:
                o += rng.choice([" ", "  ", "\n", "\t", " # c*[(\n", "\r\n"]) if w < 0.1 else " "
        o += str(t["n"]) if t["t"] == "num" else esc(rng, t["v"]) if t["t"] == "q" else t["v"]
    if rng.random() < 0.05:
        o = rng.choice([" ", "\n", "# x\n"]) + o + rng.choice([" ", "\n", " # end"])
    return o


def mutate(rng, ts):
    ts = list(ts)
    for i in range(rng.choice([1, 1, 2])):
        if not ts:
            break
        k = rng.randrange(len(ts))
        m = rng.random()
        if m < 0.4:
            del ts[k]
        elif m < 0.6:
            ts.insert(k, rng.choice(ts))
        elif m < 0.8 and len(ts) > 1:
            j = rng.randrange(len(ts))
            ts[k], ts[j] = ts[j], ts[k]
        else:
            ts.insert(k, rng.choice([P(v) for v in [",", "*", "**", "...", "(", ")", "[", "]", "{", "}", ":", "->", "?", "="]] +
                                    [NUM(3), NAME("int32"), NAME("T"), NAME("x"), Q("x"), NAME("bad"), NAME("type")]))
    return ts


def ev_parse(rng, bad=None):
    ts = toks(rng, rng.choice([1, 2, 2, 3, 3, 4]), rng.choice([0, 0.5, 0.5]))
    if rng.random() < 0.3 if bad is None else bad:
        ts = mutate(rng, ts)
    return dict(a="tparse", txt=text(rng, ts), ts=ts)


def variant(rng, ts):
    """a text close to ts"""
    ts = [dict(t) for t in ts]
    x = rng.random()
    if x < 0.3:
        return ts
    k = rng.randrange(len(ts))
    t = ts[k]
    if t["t"] == "num":
        t["n"] = rng.choice([1, 2, 3, 4])
    elif t["t"] == "lo":
        t["v"] = rng.choice(["int32", "int64", "uint32", "var", "string", "y", "x"])
    elif t["t"] == "up":
        t["v"] = rng.choice(["T", "S", "Fixed", "Dim", "Int"])
    elif t["t"] == "q":
        t["v"] = rng.choice(["x", "y", "utf8", "A"])
    elif t["v"] == "...":
        del ts[k]
    elif t["v"] in ("{", "("):
        pass
    return ts


def onechange(rng, ts):
    """ts with one token replaced by another of its sort"""
    ts = [dict(t) for t in ts]
    ks = [k for k, t in enumerate(ts) if t["t"] in ("num", "lo", "up", "q") or t["v"] == "..."]
    if not ks:
        return None
    k = rng.choice(ks)
    t = ts[k]
    if t["t"] == "num":
        t["n"] += rng.choice([1, 1, 2])
    elif t["t"] == "q":
        t["v"] += "x"
    elif t["v"] == "...":
        del ts[k]
        if k and k < len(ts) and ts[k]["v"] in (")", "}") and ts[k - 1]["v"] == ",":
            del ts[k - 1]
    elif t["t"] == "up":
        ts[k] = NAME(rng.choice([x for x in ["T", "S", "N", "Fixed", "Dim", "Int", "Any", "Scalar"] if x != t["v"]]))
    else:
        ts[k] = NAME(rng.choice([x for x in ["int32", "int64", "var", "string", "y", "x"] if x != t["v"]]))
    return ts


def ev_eq(rng):
    x = toks(rng, rng.choice([1, 2, 2, 3]))
    y = variant(rng, x) if rng.random() < 0.8 else toks(rng, 1)
    return dict(a="teq", x=text(rng, x), y=text(rng, y), xs=x, ys=y)


def dims(rng, sym):
    ts = []
    for i in range(rng.choice([0, 1, 2, 3, 4])):
        ts += rng.choice([[NUM(rng.choice([0, 1, 3, 5]))], [NAME("var")]] +
                         ([[NAME("Fixed")], [NAME("Dim")], [NAME("N")], [P("...")], [NAME("D"), P("...")]] if sym else [])) + [P("*")]
    return ts


def ev_at(rng):
    sym = rng.random() < 0.3
    x = dims(rng, sym) + rng.choice([[NAME("int32")], [P("?"), NAME("float64")], [P("("), NAME("int8"), P(","), NUM(2), P("*"), NAME("bool"), P(")")],
                                     [NAME("string")], [P("{"), NAME("x"), P(":"), NAME("int64"), P("}")], [NAME("bytes")]])
    r = dims(rng, False) + [NAME(rng.choice(["int64", "string", "bool"]))]
    return dict(a="tat", x=text(rng, x), xs=x, r=text(rng, r), rs=r, n=rng.choice([0, 0, 1, 1, 2, 3, 4, 5]), k=rng.choice([0, 1, 1, 2, 3]))


def _batch(a):
    seed, n, gen = a
    rng = random.Random(seed)
    d = Driver()
    out = []
    for i in range(n):
        r = Recorder(d)
        r.do(**gen(rng))
        if len(r.events):
            out.append(r.events)
    d.close()
    return out


def mix(rng):
    x = rng.random()
    return ev_parse(rng) if x < 0.5 else ev_eq(rng) if x < 0.75 else ev_at(rng)


def pairs(rng, all_ts, n):
    small = [t for t in all_ts if len(t) <= 6]
    base = rng.sample(small, n)
    return [dict(a="teq", x=text(rng, x), y=text(rng, y), xs=x, ys=y) for x in base for y in base]


def run08(pid):
    chk = Check(pid)
    build()
    rng = random.Random(SEED)
    tt = gens(chk.model("TypeMC", "TypeMC.cfg", workers=NPROC))
    if THOROUGH:
        chk.model("TypeMC", "TypeMC3.cfg", workers=NPROC)
    cmds = [dict(a="tparse", txt=text(rng, ts), ts=ts) for ts in tt] + pairs(rng, tt, 150 if THOROUGH else 60)
    chk.cov["enumerated_types"] = len(tt)
    # each type against itself with one part changed
    near = tt if THOROUGH else rng.sample(tt, min(len(tt), 2500))
    for ts in near + [toks(rng, 2) for i in range(500)]:
        ys = onechange(rng, ts)
        if ys:
            cmds.append(dict(a="teq", x=text(rng, ts), y=text(rng, ys), xs=ts, ys=ys))
    # field names at the boundaries of the encodings and escapes
    for cp in [1, 0x7f, 0x1f, 0x20, 0x7e, 0x80, 0x9f, 0xa0, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10001, 0xfffff, 0x100000, 0x10ffff, 7, 8, 9, 10, 11, 12, 13, 27]:
        ts = [P("{"), Q("a" + chr(cp) + "0"), P(":"), NAME("int32"), P("}")]
        cmds.append(dict(a="tparse", txt=text(rng, ts), ts=ts))
    ok = chk.validate("TypeTrace", "TypeTrace.cfg", replay(cmds), label="enum")
    rounds = 0
    while ok:
        n = 2000 if THOROUGH else 500
        s = [x for b in pparallel(_batch, [(SEED * 1000 + rounds * 64 + i, n, mix) for i in range(NPROC)]) for x in b]
        ok = chk.validate("TypeTrace", "TypeTrace.cfg", s, label="rand%d" % rounds)
        rounds += 1
        if not THOROUGH or chk.left(600) < 0:
            break
    return chk.finish()


CONC = [[NAME("int32")], [NAME("int64")], [NAME("bool")], [NAME("float64")], [NAME("uint8")], [NAME("complex128")], [NAME("string")],
        [NAME("bytes")], [NAME("fixed_bytes"), P("["), NUM(4), P("]")], [NAME("fixed_string"), P("["), NUM(5), P("]")], [NAME("void")], [NAME("type")]]


def cdims(rng):
    o = []
    for i in range(rng.choice([0, 0, 1, 1, 2, 3])):
        o += rng.choice([[NUM(0)], [NUM(1)], [NUM(2)], [NUM(3)], [NAME("var")]]) + [P("*")]
    return o


def conc(rng, depth):
    """a concrete type"""
    d = cdims(rng)
    x = rng.random()
    if depth <= 0 or x < 0.4:
        return d + rng.choice(CONC)
    if x < 0.5:
        return d + [P("?")] + rng.choice(CONC)
    if x < 0.58:
        return d + [NAME("pointer"), P("[")] + conc(rng, depth - 1) + [P("]")]
    n = rng.choice([0, 1, 1, 2, 2, 3])
    fs = [conc(rng, depth - 1) for i in range(n)]
    if x < 0.73:
        return d + [P("{")] + commas(rng, [[NAME("xyz"[i]), P(":")] + f for i, f in enumerate(fs)], True) + [P("}")]
    t = d + [P("(")] + commas(rng, fs, True) + [P(")")]
    if x > 0.9:
        t += [P("->")] + conc(rng, depth - 1)
    return t


def general(rng, ts, p=0.25):
    """a pattern close to a concrete type: parts of its tokens replaced by open parts"""
    out = []
    i = 0
    while i < len(ts):
        t = ts[i]
        isdim = i + 1 < len(ts) and ts[i + 1]["v"] == "*"
        if isdim and rng.random() < p:
            # replace one or more leading dims
            x = rng.random()
            if x < 0.5:
                out += [NAME(rng.choice(["N", "M", "N", "Fixed", "Dim"])), P("*")]
                i += 2
                continue
            j = i
            while j + 1 < len(ts) and ts[j + 1]["v"] == "*" and rng.random() < 0.8:
                j += 2
            if x < 0.8:
                out += ([NAME(rng.choice(["D", "D", "B"]))] if rng.random() < 0.8 else []) + [P("..."), P("*")]
            else:
                out += [rng.choice([NAME("N"), NAME("M"), NAME("Fixed"), NAME("var"), NUM(1), NUM(2), NUM(3)]), P("**"), NAME(rng.choice(["E", "E", "F"])), P("*")]
            i = j
            continue
        if t["v"] in ("(", "{") and rng.random() < 0.08:
            # variadic
            dep = 0
            for j in range(i, len(ts)):
                dep += ts[j]["v"] in ("(", "{", "[")
                dep -= ts[j]["v"] in (")", "}", "]")
                if dep == 0:
                    break
            body = general(rng, ts[i + 1:j], p)
            out += [t] + body + ([P(",")] if body else []) + [P("..."), ts[j]]
            i = j + 1
            continue
        if t["t"] == "lo" and not isdim and t["v"] in PRIM and not (i + 1 < len(ts) and ts[i + 1]["v"] in (":", "[")) and rng.random() < p:
            x = rng.random()
            if x < 0.5:
                out.append(NAME(rng.choice(["T", "T", "S"])))
            elif x < 0.9:
                out.append(NAME(rng.choice(["Any", "Scalar", "Bool", "Int", "UInt", "Float", "Complex", "String", "Bytes", "FixedBytes"])))
            else:
                out += [NAME("C"), P("["), t, P("]")]
            i += 1
            continue
        out.append(t)
        i += 1
    return out


def edit(rng, ts):
    """ts with a component of a record or of a list of arguments added or taken away"""
    ks = [k for k, t in enumerate(ts) if t["t"] == "p" and t["v"] in (")", "}")]
    if not ks:
        return ts
    k = rng.choice(ks)
    dep, j, cuts = 0, k - 1, []
    while j >= 0:
        v = ts[j]["v"] if ts[j]["t"] == "p" else ""
        if v in (")", "}", "]"):
            dep += 1
        elif v in ("(", "{", "["):
            if dep == 0:
                break
            dep -= 1
        elif v == "," and dep == 0:
            cuts.append(j)
        j -= 1
    if j < 0:
        return ts
    if rng.random() < 0.35:
        if cuts:
            c = rng.choice(cuts)
            e = min([x for x in cuts if x > c] + [k])
            return ts[:c] + ts[e:]
        return ts[:j + 1] + ts[k:]
    new = rng.choice([[NAME("int32")], [NAME("float64")], [NUM(3), P("*"), NAME("int32")]])
    if ts[k]["v"] == "}" or rng.random() < 0.5:
        new = [NAME(rng.choice(["x", "y", "zz", "k"])), P(":")] + new
    return ts[:k] + ([P(",")] if k > j + 1 else []) + new + ts[k:]


def joint(rng):
    """several lists of dimensions that broadcast together"""
    n = rng.choice([2, 2, 3])
    base = [rng.choice([NUM(2), NUM(3), NUM(1), NUM(0), NAME("var")]) for i in range(rng.choice([0, 1, 2, 3]))]
    ps, qs = [], []
    for i in range(n):
        d = base[rng.randrange(len(base) + 1):] if rng.random() < 0.6 else list(base)
        d = [NUM(1) if rng.random() < 0.2 else rng.choice([NUM(2), NUM(3), NAME("var")]) if rng.random() < 0.08 else x for x in d]
        el = rng.choice([[NAME("T")], [NAME("S")], [NAME("int32")], [NAME("Int")], [NAME("Any")]])
        qel = rng.choice([[NAME("int32")]] * 4 + [[NAME("int64")]])
        x = rng.random()
        p = [NAME(rng.choice("DDDE")), P("..."), P("*")] if x < 0.75 else [NAME("N"), P("*")] if x < 0.85 else []
        if x < 0.2:
            p += rng.choice([[NAME("N")], [NUM(3)], [NAME("Fixed")]]) + [P("*")]
            d = d + [rng.choice([NUM(3), NUM(3), NUM(1)])]
        elif x < 0.27:
            p = [NAME("N"), P("*")] + p
            d = [NUM(3)] + d
        ps.append(p + el)
        qs.append([t for x in d for t in (x, P("*"))] + qel)
    if rng.random() < 0.5:
        k = rng.choice([["(", ")"], ["(", ")"], ["f", ""]])
        if k[0] == "f":
            mk = lambda xs: [P("(")] + [t for i, x in enumerate(xs[1:]) for t in ([P(",")] if i else []) + x] + [P(")"), P("->")] + xs[0]
        else:
            mk = lambda xs: [P("(")] + [t for i, x in enumerate(xs) for t in ([P(",")] if i else []) + x] + [P(")")]
    else:
        mk = lambda xs: [P("{")] + [t for i, x in enumerate(xs) for t in ([P(",")] if i else []) + [NAME("xyz"[i]), P(":")] + x] + [P("}")]
    p, q = mk(ps), mk(qs)
    return dict(a="tmatch", p=text(rng, p), q=text(rng, q), ps=p, qs=q)


def ev_match(rng):
    if rng.random() < 0.2:
        return joint(rng)
    q = conc(rng, rng.choice([0, 1, 1, 2]))
    p = general(rng, variant(rng, q) if rng.random() < 0.3 else q, rng.choice([0, 0.25, 0.5]))
    x = rng.random()
    if x < 0.05:
        q = toks(rng, 2)
    elif x < 0.2:
        q = edit(rng, q)
    return dict(a="tmatch", p=text(rng, p), q=text(rng, q), ps=p, qs=q)


def ev_subst(rng):
    q = conc(rng, rng.choice([0, 1, 1, 2]))
    p = general(rng, q, rng.choice([0.25, 0.5]))
    vs = []
    for k, r in [("T", "type"), ("S", "type"), ("N", "dim"), ("M", "dim"), ("E", "exp"), ("F", "exp")]:
        x = rng.random()
        if x < 0.3:
            continue
        if x > 0.95:
            r = "dim" if r == "type" else "type"
        if r == "type":
            t = rng.choice(CONC) if rng.random() < 0.8 else [NAME(rng.choice(["S", "Int", "Any"]))]
        elif r == "dim":
            t = [rng.choice([NUM(0), NUM(1), NUM(3), NAME("var"), NAME("Fixed")]), P("*"), NAME("void")]
        else:
            t = [NUM(rng.choice([0, 1, 2])), P("*"), NAME("void")]
        vs.append({"k": k, "r": r, "ts": t})
    return dict(a="tsubst", p=text(rng, p), ps=p, vs=vs, vars=[[v["k"], text(rng, v["ts"])] for v in vs], conc=int(rng.random() < 0.5))


def mix9(rng):
    return ev_match(rng) if rng.random() < 0.65 else ev_subst(rng)


def run09(pid):
    chk = Check(pid)
    build()
    rng = random.Random(SEED)
    g = gens(chk.model("MatchMC", "MatchMC.cfg", workers=NPROC))
    chk.model("MatchMC", "MatchMC3.cfg" if THOROUGH else "MatchMC2.cfg", workers=NPROC)
    ps, qs = [x["p"] for x in g if "p" in x], [x["q"] for x in g if "q" in x]
    prs = [(p, q) for p in ps for q in qs]
    rng.shuffle(prs)
    chk.cov["pattern_type_pairs"] = len(prs)
    if not THOROUGH:
        prs = prs[:9000]
    # every kind against every scalar, bare and inside a dimension or an option
    arr = lambda n, *xs: [NAME(n), P("[")] + [y for i, x in enumerate(xs) for y in ([P(",")] if i else []) + [x]] + [P("]")]
    sc = [[NAME(n)] for n in PRIM] + [arr("fixed_bytes", NUM(4)), arr("fixed_string", NUM(5)), arr("fixed_string", NUM(5), Q("ascii")), arr("string", Q("utf16")),
                                     arr("bytes", NAME("align"))[:2] + [NAME("align"), P("="), NUM(4), P("]")], [P("?"), NAME("int32")], [NAME("char")], [P("("), NAME("int32"), P(")")],
                                     [P("("), P(")"), P("->"), NAME("int32")], [NAME("pointer"), P("["), NAME("int32"), P("]")], [NUM(3), P("*"), NAME("int32")]]
    for w in ([], [P("?")], [NUM(3), P("*")]):
        for k in KIND:
            for q in sc:
                if not (w and w[0]["v"] == "?" and q[0]["t"] in ("p", "num")):
                    prs.append((w + [NAME(k)], w + q))
    cmds = [dict(a="tmatch", p=text(rng, p), q=text(rng, q), ps=p, qs=q) for p, q in prs]
    ok = chk.validate("TypeTrace", "TypeTrace.cfg", replay(cmds), label="enum")
    rounds = 0
    while ok:
        n = 2000 if THOROUGH else 700
        s = [x for b in pparallel(_batch, [(SEED * 1000 + rounds * 64 + i, n, mix9) for i in range(NPROC)]) for x in b]
        ok = chk.validate("TypeTrace", "TypeTrace.cfg", s, label="rand%d" % rounds)
        rounds += 1
        if not THOROUGH or chk.left(600) < 0:
            break
    return chk.finish()


def run(pid):
    return {"C08": run08, "C09": run09}[pid](pid)
