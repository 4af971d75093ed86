"""C10, C17: overload dispatch and the call protocol (spec/DyndCall.tla)."""
from common import *
from elwise import replay
from dtypes import P, NAME, NUM, Q, word
import itertools


def txt(ts):
    o = ""
    for i, t in enumerate(ts):
        if i and not (ts[i - 1]["v"] in ("(", "[", "{", "?") or t["v"] in (")", "]", "}", ",", ":", "[")):
            o += " "
        o += str(t["n"]) if t["t"] == "num" else '"%s"' % t["v"] if t["t"] == "q" else t["v"]
    return o


SCAL = ["int32", "int64", "float64", "bool", "string", "uint8", "complex128", "int8"]
KINDS = ["Any", "Any", "Scalar", "Scalar", "Int", "Int", "Float", "Bool", "String", "UInt", "Complex", "FixedString", "Bytes", "FixedBytes"]


def dpat(rng, depth=2, dims=True):
    x = rng.random()
    if dims and depth > 0 and x < 0.35:
        return rng.choice([[NAME("Dim")], [NAME("Fixed")], [NAME("var")], [NUM(3)], [NUM(2)]]) + [P("*")] + dpat(rng, depth - 1)
    if x < 0.5:
        return [P("?"), NAME(rng.choice(KINDS + SCAL[:4]))]
    if x < 0.78:
        return [NAME(rng.choice(KINDS))]
    if x < 0.83:
        return rng.choice([[NAME("fixed_string"), P("["), NUM(5), P("]")], [NAME("fixed_bytes"), P("["), NUM(4), P("]")], [NAME("bytes")]])
    return [NAME(rng.choice(SCAL[:4]))]


def special(rng, ts):
    """a concrete type that ts stands for"""
    out = []
    for i, t in enumerate(ts):
        v = t["v"]
        if v == "Dim":
            out.append(rng.choice([NUM(3), NUM(2), NAME("var")]))
        elif v == "Fixed":
            out.append(rng.choice([NUM(3), NUM(2)]))
        elif v == "Any":
            inopt = i > 0 and ts[i - 1]["v"] == "?"
            if not inopt and rng.random() < 0.4:
                out += [rng.choice([NUM(3), NUM(2), NAME("var")]), P("*")]
            out.append(NAME(rng.choice(SCAL)))
        elif v in KINDS:
            c = {"Scalar": SCAL, "Int": ["int32", "int64", "int8"], "Float": ["float64", "float32"], "Bool": ["bool"], "String": ["string"],
                 "UInt": ["uint8", "uint32"], "Complex": ["complex128"], "Bytes": ["bytes"]}.get(v)
            out += [NAME(rng.choice(c))] if c else [NAME("fixed_string"), P("["), NUM(5), P("]")] if v == "FixedString" else \
                   [NAME("fixed_bytes"), P("["), NUM(4), P("]")]
        else:
            out.append(t)
    return out


def nudge(rng, ts):
    """a pattern near ts"""
    ts = [dict(t) for t in ts]
    k = rng.randrange(len(ts))
    t = ts[k]
    if t["t"] == "num" and k + 1 < len(ts) and ts[k + 1]["v"] == "*":
        ts[k] = rng.choice([NUM(3), NUM(2), NAME("Fixed"), NAME("Dim")])
    elif t["v"] in ("Dim", "Fixed", "var"):
        ts[k] = rng.choice([NUM(3), NAME("Fixed"), NAME("Dim"), NAME("var")])
    elif t["v"] in KINDS or t["v"] in SCAL:
        if not (k + 1 < len(ts)):
            ts[k] = NAME(rng.choice(KINDS + SCAL[:3]))
    return ts


def session10(rng):
    fn = rng.random() < 0.4
    n = rng.choice([1, 2]) if fn else rng.choice([1, 1, 2, 2, 3])
    pool = [dpat(rng) for i in range(rng.choice([2, 3, 5]))]
    for i in range(3):
        pool += [nudge(rng, rng.choice(pool)), nudge(rng, rng.choice(pool))]
    sig = lambda: [rng.choice(pool) for i in range(n)]
    reg = [sig() for i in range(rng.choice([0, 1, 2, 3, 4, 6]))]
    cmds = [dict(a="dnew", n=n, fn=int(fn), sigs=[[txt(t) for t in s] for s in reg], ss=reg)]
    for r in range(rng.choice([1, 2, 3])):
        for i in range(rng.choice([2, 4, 6])):
            base = rng.choice(reg) if reg and rng.random() < 0.8 else sig()
            ts = [special(rng, t) for t in base]
            cmds.append(dict(a="dcall" if fn and rng.random() < 0.5 else "dfind", tps=[txt(t) for t in ts], ts=ts))
        add = [sig() for i in range(1 if fn else rng.choice([1, 1, 2, 3]))]
        cmds.append(dict(a="dadd", sigs=[[txt(t) for t in s] for s in add], ss=add))
        reg = reg + add
    for i in range(4):
        p, q = rng.choice(pool), rng.choice(pool + [special(rng, rng.choice(pool))])
        cmds.append(dict(a="dcov", p=txt(p), q=txt(q), ps=p, qs=q))
    return cmds


def _batch10(a):
    seed, n = a
    rng = random.Random(seed)
    return run_batch([session10(rng) for i in range(n)])


def _run(sessions):
    return run_batch(sessions)


def preplay(sessions):
    return [s for b in pparallel(_run, split(sessions, NPROC)) for s in b]


def run10(pid):
    chk = Check(pid)
    build()
    rng = random.Random(SEED)
    sess = []
    for cfg in ("A", "B"):
        g = gens(chk.model("DispatchMC", "DispatchMC_%s.cfg" % cfg, workers=NPROC))
        regs = [x for x in g if isinstance(x, list)]
        calls = [x for x in g if isinstance(x, dict)][0]["t"]
        n = len(regs[0][0])
        chk.cov["overload_sets_%s" % cfg] = len(regs)
        if not THOROUGH:
            regs = rng.sample(regs, min(len(regs), 300))
        for ss in regs:
            k = rng.choice([0, 1, 2, 3])
            fn = int(rng.random() < 0.3)
            if fn:
                k = max(k, 2)
            c = [dict(a="dnew", n=n, fn=fn, sigs=[[txt(t) for t in s] for s in ss[:k]], ss=ss[:k])]
            if k < 3:
                c.append(dict(a="dadd", sigs=[[txt(t) for t in s] for s in ss[k:]], ss=ss[k:]))
            cc = list(itertools.product(calls, repeat=n))
            if len(cc) > 8 and not THOROUGH:
                cc = rng.sample(cc, 8)
            for ts in cc:
                c.append(dict(a="dfind", tps=[txt(t) for t in ts], ts=list(ts)))
            sess.append(c)
    ok = chk.validate("CallTrace", "CallTrace.cfg", preplay(sess), label="enum")
    rounds = 0
    while ok:
        n = 300 if THOROUGH else 70
        s = [x for b in pparallel(_batch10, [(SEED * 1000 + rounds * 64 + i, n) for i in range(NPROC)]) for x in b]
        ok = chk.validate("CallTrace", "CallTrace.cfg", s, label="rand%d" % rounds)
        rounds += 1
        if not THOROUGH or chk.left(600) < 0:
            break
    return chk.finish()


# ---- C17
CT = [[NAME("int32")], [NAME("int32")], [NAME("float64")], [NAME("string")], [NAME("int64")], [NAME("bool")]]
DT = [[NUM(3)], [NUM(2)], [NUM(1)], [NAME("var")]]


def vars_of(rng):
    e = {v: rng.choice(CT) for v in "TS"}
    e.update({v: rng.choice(DT) for v in "NM"})
    for v in "DE":
        e[v] = [x for i in range(rng.choice([0, 1, 2])) for x in rng.choice(DT) + [P("*")]]
    return e


def ppat(rng, opt=True):
    """a parameter pattern"""
    x = rng.random()
    el = rng.choice([[NAME("T")], [NAME("T")], [NAME("S")]] + CT[:3] + [[NAME("Int")], [NAME("Scalar")]])
    if x < 0.4:
        return el
    if x < 0.6:
        return rng.choice([[NAME("N")], [NAME("N")], [NAME("M")], [NUM(3)], [NAME("var")], [NAME("Fixed")], [NAME("Dim")]]) + [P("*")] + el
    if x < 0.75:
        return [NAME(rng.choice("DE")), P("..."), P("*")] + el
    if x < 0.8:
        return [P("("), NAME("T"), P(","), NAME("S"), P(")")]
    if x < 0.9:
        return [NAME("Any")]
    return rng.choice(CT)


def inst(rng, ts, e, noise):
    if rng.random() < noise:
        e = vars_of(rng)
    out = []
    i = 0
    while i < len(ts):
        v = ts[i]["v"]
        dim = i + 1 < len(ts) and ts[i + 1]["v"] in ("*", "...")
        if v in "DE" and dim and ts[i + 1]["v"] == "...":
            d = [x for x in e[v]]
            if rng.random() < noise:
                d = [NUM(1) if x["t"] == "num" and rng.random() < 0.5 else x for x in d]
            out += d
            i += 3
            continue
        if v in ("T", "S", "N", "M"):
            out += e[v]
        elif v == "?":
            pass
        elif v == "Fixed":
            out += [NUM(rng.choice([2, 3]))]
        elif v == "Dim":
            out += rng.choice(DT)
        elif v == "Any":
            out += rng.choice([[], [NUM(3), P("*")]]) + rng.choice(CT)
        elif v == "Scalar":
            out += rng.choice(CT)
        elif v == "Int":
            out += [NAME(rng.choice(["int32", "int64", "int8"]))]
        else:
            out.append(ts[i])
        i += 1
    return out


def ev_call(rng):
    npos = rng.choice([0, 1, 1, 2, 2, 3])
    nk = rng.choice([0, 0, 1, 2, 2, 3, 4])
    pos = [ppat(rng) for i in range(npos)]
    names = rng.sample(["x", "y", "z", "axes", "k"], nk)
    kw = [([P("?")] + rng.choice([[NAME("T")], [NAME("S")]] + CT) if rng.random() < 0.45 else ppat(rng)) for n in names]
    ret = ppat(rng) if rng.random() < 0.8 else [NAME("int32")]
    posvar = rng.random() < 0.12
    sig = [P("(")]
    items = list(pos) + ([[P("...")]] if posvar else []) + [[NAME(n), P(":")] + t for n, t in zip(names, kw)]
    for i, it in enumerate(items):
        sig += ([P(",")] if i else []) + it
    sig += [P(")"), P("->")] + ret
    if posvar and not nk:
        # "(..., ...)" leaves the keywords open as well
        posvar = True
    e = vars_of(rng)
    noise = rng.choice([0, 0, 0.15, 0.4])
    args = [inst(rng, t, e, noise) for t in pos]
    if posvar:
        args += [rng.choice(CT) for i in range(rng.choice([0, 1, 2]))]
    k = 0
    if not posvar and nk and rng.random() < 0.3:
        k = rng.randrange(nk + 1)
        args += [inst(rng, t, e, noise) for t in kw[:k]]
    if rng.random() < 0.1:
        if rng.random() < 0.5 and args:
            args.pop()
        else:
            args.append(rng.choice(CT))
    ks = []
    for n, t in list(zip(names, kw))[k:]:
        if rng.random() < (0.5 if t[0]["v"] == "?" else 0.93):
            ks.append([n, inst(rng, t, e, noise)])
    x = rng.random()
    if x < 0.06:
        ks.append([rng.choice(["x", "q", "y"]), rng.choice(CT)])
    if rng.random() < 0.35:
        ks.append([rng.choice(["dst", "dst", "dst_tp"]), inst(rng, ret, e, noise)])
    rng.shuffle(ks)
    return dict(a="pcall", sig=txt(sig), ss=sig, args=[txt(t) for t in args], kw=[[n, txt(t)] for n, t in ks],
                **{"as": args, "ks": [{"n": n, "ts": t} for n, t in ks]})


def _batch(a):
    seed, n, gen = a
    rng = random.Random(seed)
    return run_batch([[gen(rng)] for i in range(n)])


def run17(pid):
    chk = Check(pid)
    build()
    g = gens(chk.model("CallMC", "CallMC.cfg", workers=NPROC))
    if THOROUGH:
        chk.model("CallMC", "CallMC3.cfg", workers=NPROC)
    chk.cov["enumerated_calls"] = len(g)
    rng = random.Random(SEED)
    if not THOROUGH and len(g) > 6000:
        g = rng.sample(g, 6000)
    cmds = [dict(a="pcall", sig=txt(x["s"]), ss=x["s"], args=[txt(t) for t in x["p"]], kw=[[k["n"], txt(k["ts"])] for k in x["k"]],
                 **{"as": x["p"], "ks": x["k"]}) for x in g]
    ok = chk.validate("CallTrace", "CallTrace.cfg", replay(cmds), label="enum")
    rounds = 0
    while ok:
        n = 2500 if THOROUGH else 700
        s = [x for b in pparallel(_batch, [(SEED * 1000 + rounds * 64 + i, n, ev_call) for i in range(NPROC)]) for x in b]
        ok = chk.validate("CallTrace", "CallTrace.cfg", s, label="rand%d" % rounds)
        rounds += 1
        if not THOROUGH or chk.left(600) < 0:
            break
    return chk.finish()


def run(pid):
    return run10(pid) if pid == "C10" else run17(pid)
