"""C06: reductions (spec/DyndReduce.tla)."""
from common import *
from heapgen import leaf, dim
from elwise import var, tystr, t_nd, replay

BUILTIN = {"sum": ["int8", "int16", "int32", "int64", "uint8", "uint32", "float32", "float64"],
           "max": ["int8", "int16", "int32", "int64", "uint8", "uint16", "float64"],
           "min": ["int8", "int16", "int32", "int64", "uint8", "uint16", "float64"],
           "all": ["bool"], "all_equal": ["int32", "float64", "int8"],
           "rsum0": ["int32"], "rsum100": ["int32"], "rdig": ["int32"], "rmax2": ["int32"]}


def value(rng, T, t):
    if T["k"] == "leaf":
        if t == "bool":
            return int(rng.random() < 0.8)
        return rng.choice([0, 1, 2, 3, 5, 7, 11]) - (0 if t.startswith("u") else rng.choice([0, 0, 0, 4]))
    n = T["n"] if T["k"] == "dim" else rng.choice([0, 1, 2, 3])
    return [value(rng, T["el"], t) for i in range(n)]


def command(f, args, axes=None, keep=None, kw_layout=0):
    kw, o = [], {}
    if axes is not None:
        kw.append(["axes", {"tp": "%d * int32" % len(axes), "v": axes, "w": kw_layout}])
        o["axes"] = axes
    if keep is not None:
        kw.append(["keepdims", {"tp": "bool", "v": int(keep)}])
        o["keep"] = int(keep)
    return dict(a="call", f=f, args=args, kw=kw, o=o)


def gen_call(rng):
    f = rng.choice(list(BUILTIN) + ["sum", "rdig", "rdig", "rmax2"])
    t = rng.choice(BUILTIN[f])
    nd = rng.choice([0, 1, 1, 2, 2, 3, 3, 4])
    T = leaf(t)
    tot = 1
    for i in range(nd):
        n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4] if rng.random() < 0.5 else [1, 2, 3])
        if tot * max(1, n) > 60:
            n = 1
        tot *= max(1, n)
        r = rng.random()
        T = var(T) if (r < 0.12 and i == 0) or r < 0.02 else dim(n, T)
    axes = keep = None
    if rng.random() < 0.7:
        axes = rng.sample(range(nd), rng.randint(0, nd))
        if rng.random() < 0.5:
            axes.sort()
    if rng.random() < 0.5:
        keep = rng.random() < 0.6
    args = []
    k = 2 if f in ("all_equal", "rmax2") else 1
    for i in range(k):
        U = T
        if i == 1 and rng.random() < 0.12 and nd:
            U = T["el"] if rng.random() < 0.5 else dim(rng.choice([0, 1, 2, 3]), T["el"])
        v = value(rng, U, t)
        if i == 1 and f == "all_equal" and U is T and "var" not in tystr(T) and rng.random() < 0.8:
            v = json.loads(json.dumps(args[0]["v"]))
            q = v
            d = nd
            while isinstance(q, list) and q and rng.random() < 0.9:
                if d == 1:
                    q[rng.randrange(len(q))] += rng.choice([0, 0, 1])
                    break
                q = q[rng.randrange(len(q))]
                d -= 1
        args.append({"tp": tystr(U), "ty": U, "v": v, "w": rng.choice([0, 0, 1, 2, 3, 4, 5])})
    return command(f, args, axes, keep, rng.choice([0, 0, 2, 3]))


def _batch(a):
    seed, n = a
    d = Driver()
    rng = random.Random(seed)
    out = []
    for i in range(n):
        r = Recorder(d)
        r.do(**gen_call(rng))
        out.append(r.events)
    d.close()
    return out


def enum_cmds(cases):
    out = []
    fs = ["rdig", "sum", "max", "rmax2", "min", "rsum100"]
    for i, c in enumerate(cases):
        for f in ([fs[i % len(fs)], "rdig"] if not THOROUGH else fs):
            args = [{"tp": tystr(c["t"]), "ty": c["t"], "v": c["v"], "w": (i // 3) % 6}]
            if f == "rmax2":
                args = [args[0], dict(args[0], w=(i // 5) % 4)]
            axes = c["axes"] if isinstance(c["axes"], list) else sorted(c["axes"])
            if len(axes) == t_nd(c["t"]) and i % 2:
                axes = None
            out.append(command(f, args, axes, c["keep"] if i % 3 or c["keep"] else None, i % 4))
    return out


def run(pid):
    chk = Check(pid)
    build()
    T = THOROUGH
    out = chk.model("ReduceMC", "ReduceMC4.cfg" if T else "ReduceMC.cfg", workers=NPROC)
    cases = gens(out)
    chk.cov["enumerated_calls"] = len(cases)
    ok = chk.validate("ReduceTrace", "ReduceTrace.cfg", replay(enum_cmds(cases)), label="enum")
    rounds = 0
    while ok:
        n = 2000 if T else 300
        s = [x for b in pparallel(_batch, [(SEED * 1000 + rounds * 64 + i, n) for i in range(NPROC)]) for x in b]
        ok = chk.validate("ReduceTrace", "ReduceTrace.cfg", s, label="rand%d" % rounds)
        rounds += 1
        if not T or chk.left(600) < 0:
            break
    chk.cov["bounds"] = "up to 4 dimensions, 60 scalars; integers of at most 9 digits"
    return chk.finish()
