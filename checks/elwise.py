"""C05: elementwise broadcasting (spec/DyndElwise.tla)."""
from common import *
from heapgen import leaf, dim


def var(el):
    return {"k": "var", "el": el}


def tystr(T):
    if T["k"] == "leaf":
        return T["t"]
    return ("var * " if T["k"] == "var" else "%d * " % T["n"]) + tystr(T["el"])


FNS = {"lin1": ["int32"], "lin2": ["int32"] * 2, "lin3": ["int32"] * 3, "lin4": ["int32"] * 4,
       "mix2": ["float64", "int32"], "mix3": ["int8", "float64", "int64"],
       "add": 2, "subtract": 2, "multiply": 2, "minus": 1, "plus": 1, "less": 2, "less_equal": 2, "greater": 2,
       "greater_equal": 2, "equal": 2, "not_equal": 2, "logical_and": ["bool"] * 2, "logical_or": ["bool"] * 2,
       "logical_not": ["bool"]}


def gen_call(rng, maxnd=4, budget=48):
    f = rng.choice(list(FNS) + ["lin2", "lin3", "lin2", "lin3", "mix2", "mix3"])
    ts = FNS[f]
    if isinstance(ts, int):
        ts = [rng.choice(["int32", "int64", "float64"])] * ts
    nd = rng.choice([0, 1, 1, 2, 2, 2, 3, 3, 4][:maxnd * 2 + 1])
    # one size per level; var levels may have a size of their own in every row
    levels = []
    tot = 1
    for i in range(nd):
        kind = rng.choice(["fixed", "fixed", "fixed", "var", "mixed"])
        n = rng.choice([0, 1, 2, 2, 3, 3, 4])
        if tot * max(1, n) > budget:
            n = 1
        tot *= max(1, n)
        levels.append((kind, n, rng.random() < 0.4))
    sizes = {}

    def rowsize(path):
        kind, n, vary = levels[len(path)]
        if kind == "var" and vary:
            if path not in sizes:
                sizes[path] = rng.choice([0, 1, 2, 3])
            return sizes[path]
        return n

    def mk(t, lv, dstlike=False):
        """type and value of one argument over levels lv.."""
        lt = rng.choice(["leaf"]) and leaf(t)
        plan = []
        for i in range(lv, nd):
            kind, n, vary = levels[i]
            one = not dstlike and rng.random() < 0.25
            if kind == "fixed":
                plan.append(("dim", 1 if one else n))
            elif kind == "var":
                plan.append(("dim", 1) if one and rng.random() < 0.5 else ("var", one))
            else:
                plan.append(("dim", 1 if one else n) if rng.random() < 0.5 else ("var", one))
        if rng.random() < 0.07 and plan:
            k = rng.randrange(len(plan))
            plan[k] = ("dim", rng.choice([0, 1, 2, 3, 5]))
        T = lt
        for k, n in reversed(plan):
            T = dim(n, T) if k == "dim" else var(T)
        cnt = [rng.randrange(9)]

        def val(i, path):
            if i == len(plan):
                cnt[0] += 1
                if t == "bool":
                    return rng.randrange(2)
                return (cnt[0] * 7 + rng.randrange(3)) % 23 - (6 if rng.random() < 0.3 else 0)
            k, n = plan[i]
            if k == "dim":
                m = n
            else:
                m = rowsize(path)
                if n or rng.random() < 0.15:
                    m = 1
                if rng.random() < 0.02:
                    m = rng.randrange(4)
            return [val(i + 1, path + (0 if m == 1 else j,)) for j in range(m)]
        return T, val(0, (0,) * lv)

    args = []
    for i, t in enumerate(ts):
        lv = 0 if i == 0 and rng.random() < 0.6 else rng.randint(0, nd)
        T, v = mk(t, lv)
        args.append({"tp": tystr(T), "ty": T, "v": v, "w": rng.choice([0, 0, 1, 2, 3, 4, 5])})
    rng.random() < 0.5 and rng.shuffle(args) if len(set(ts)) == 1 else None
    cmd = {"f": f, "args": args}
    if rng.random() < 0.35:
        ret = {"mix2": "float64", "mix3": "int64"}.get(f) or ("int32" if f.startswith("lin") else
               ts[0] if f in ("add", "subtract", "multiply", "minus", "plus") else "bool")
        T, v = mk(ret, 0, True)
        d = {"ty": T, "v": v, "w": rng.choice([0, 0, 1, 2, 3, 4, 5])}
        if rng.random() < 0.1:  # an extra leading dimension
            n = rng.choice([1, 2])
            d["ty"], d["v"] = dim(n, T), [v] * n
        if "var" in tystr(T) and rng.random() < 0.5:
            d["raw"], d["v"] = 1, 0
        d["tp"] = tystr(d["ty"])
        cmd["dst"] = d
    return cmd


def _batch(a):
    seed, n = a
    d = Driver()
    rng = random.Random(seed)
    out = []
    for i in range(n):
        r = Recorder(d)
        r.do(a="call", **gen_call(rng))
        out.append(r.events)
    d.close()
    return out


def _cmds(cmds):
    d = Driver()
    out = []
    for c in cmds:
        r = Recorder(d)
        r.do(**c)
        out.append(r.events)
    d.close()
    return out


def enum_cmds(cases):
    out = []
    for i, c in enumerate(cases):
        n = len(c["ts"])
        args = [{"tp": tystr(t), "ty": t, "v": v, "w": (i // 3 + k) % 6} for k, (t, v) in enumerate(zip(c["ts"], c["vs"]))]
        cmd = dict(a="call", f="lin%d" % n, args=args)
        out.append(cmd)
        if i % 3 == SEED % 3 or THOROUGH:  # into a fresh destination made of var dimensions, or of the result's sizes
            nd = max(t_nd(t) for t in c["ts"])
            T = leaf("int32")
            for k in range(nd):
                T = var(T)
            out.append(dict(cmd, dst={"ty": T, "tp": tystr(T), "v": 0, "raw": 1}))
    return out


def t_nd(T):
    return 0 if T["k"] == "leaf" else 1 + t_nd(T["el"])


def replay(cmds):
    return [s for b in pparallel(_cmds, split(cmds, NPROC)) for s in b]


def run(pid):
    chk = Check(pid)
    build()
    T = THOROUGH
    out = chk.model("ElwiseMC", "ElwiseMC3.cfg" if T else "ElwiseMC.cfg", workers=NPROC)
    cases = gens(out)
    chk.cov["enumerated_calls"] = len(cases)
    ok = chk.validate("ElwiseTrace", "ElwiseTrace.cfg", replay(enum_cmds(cases)), label="enum")
    rounds = 0
    while ok:
        n = 2000 if T else 350
        s = [x for b in pparallel(_batch, [(SEED * 1000 + rounds * 64 + i, n) for i in range(NPROC)]) for x in b]
        ok = chk.validate("ElwiseTrace", "ElwiseTrace.cfg", s, label="rand%d" % rounds)
        rounds += 1
        if not T or chk.left(600) < 0:
            break
    chk.cov["bounds"] = "up to 4 dimensions, 4 arguments, 48 scalars per level product"
    return chk.finish()
