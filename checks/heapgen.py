"""Random interactive sessions on the array/view heap (spec/DyndHeap.tla)."""
import random

INTS = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"]


def leaf(t):
    return {"k": "leaf", "t": t}


def dim(n, el):
    return {"k": "dim", "n": n, "el": el}


def tstr(T):
    if T["k"] == "leaf":
        return T["t"]
    if T["k"] == "dim":
        return "%d * %s" % (T["n"], tstr(T["el"]))
    if T["k"] == "struct":
        return "{" + ", ".join("%s: %s" % (f["n"], tstr(f["t"])) for f in T["f"]) + "}"
    return "(" + ", ".join(tstr(f["t"]) for f in T["f"]) + ")"


def nleaves(T):
    if T["k"] == "leaf":
        return 1
    if T["k"] == "dim":
        return T["n"] * nleaves(T["el"])
    return sum(nleaves(f["t"]) for f in T["f"])


def leaves(T, o):
    if T["k"] == "leaf":
        return [o]
    if T["k"] == "dim":
        return [x for i in range(T["n"]) for x in leaves(T["el"], o + i * T["s"])]
    return [x for f in T["f"] for x in leaves(f["t"], o + f["o"])]


def leaftypes(T):
    if T["k"] == "leaf":
        return [T["t"]]
    if T["k"] == "dim":
        return leaftypes(T["el"])
    return [x for f in T["f"] for x in leaftypes(f["t"])]


def nobytes(h):  # the library offers no assignment between fixed_bytes
    return not any(t.startswith("bytes") for t in leaftypes(h["T"]))


def ndim(T):
    return 1 + ndim(T["el"]) if T["k"] == "dim" else 0


def shape(T):
    return [T["n"]] + shape(T["el"]) if T["k"] == "dim" else []


def dtype(T):
    return dtype(T["el"]) if T["k"] == "dim" else T


def skel(T):
    if T["k"] == "leaf":
        return T["t"]
    if T["k"] == "dim":
        return (T["n"], skel(T["el"]))
    return (T["k"],) + tuple((f.get("n"), skel(f["t"])) for f in T["f"])


def contig(T, sz):
    """total size if C-contiguous, else None"""
    if T["k"] != "dim":
        return sz
    e = contig(T["el"], sz)
    if e is None or (T["n"] > 1 and T["s"] != e):
        return None
    return T["n"] * e


SIZES = {"bool": 1, "int8": 1, "uint8": 1, "int16": 2, "uint16": 2, "int32": 4, "uint32": 4, "float32": 4,
         "int64": 8, "uint64": 8, "float64": 8, "bytes1": 1, "bytes2": 2, "bytes4": 4, "bytes8": 8}
INTLIKE = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"]
NAMES = ["x", "y", "zed", "w", "f1", "_g"]


def broadcast_ok(D, S):
    d, s = shape(D), shape(S)
    if len(s) > len(d):
        return False
    return all(b == 1 or a == b for a, b in zip(d[len(d) - len(s):], s))


class HeapGen:
    def __init__(self, rng, rec, maxh=6, kinds=None, scalars=None):
        self.g = rng
        self.r = rec
        self.hs = {}
        self.n = 0
        self.maxh = maxh
        self.scalars = scalars or INTS
        self.kinds = kinds or {}

    # -- types and values
    def dims(self, el, lo=0, hi=3, budget=24):
        k = self.g.choice([x for x in range(lo, hi + 1)] + [1, 2, 2, 3][:max(1, hi)])
        k = min(k, hi)
        T = el
        b = max(1, budget // max(1, nleaves(el)))
        for _ in range(k):
            n = self.g.choice([1, 2, 2, 3, 3, 4, 5, 0]) if self.g.random() < .9 else self.g.randint(0, 7)
            if n > b:
                n = b
            if n > 1:
                b //= n
            T = dim(n, T)
        return T

    def scalar(self):
        return leaf(self.g.choice(self.scalars))

    def rtype(self, depth=0):
        g = self.g
        x = g.random()
        if depth >= 2 or x < (.6 if depth == 0 else .7):
            el = self.scalar()
        else:
            nf = g.choice([1, 2, 2, 3, 4, 0]) if g.random() < .95 else 0
            names = g.sample(NAMES, nf)
            fl = []
            for i in range(nf):
                fl.append({"n": names[i], "t": self.rtype(depth + 1)})
            if nf == 0:
                el = self.scalar()
            elif g.random() < .7:
                el = {"k": "struct", "f": fl}
            else:
                el = {"k": "tuple", "f": [{"t": f["t"]} for f in fl]}
        return self.dims(el, 0, 3 if depth == 0 else 1, 24 if depth == 0 else 3)

    def value(self, T):
        if T["k"] == "leaf":
            return self.g.randint(0, 1) if T["t"] == "bool" else self.g.randint(0, 100)
        if T["k"] == "dim":
            return [self.value(T["el"]) for _ in range(T["n"])]
        return [self.value(f["t"]) for f in T["f"]]

    # -- bookkeeping
    def name(self):
        self.n += 1
        return "h%d" % self.n

    def pick(self, pred=lambda h: True):
        l = [k for k, h in self.hs.items() if pred(h)]
        return self.g.choice(l) if l else None

    def bind(self, n, res):
        if res["e"] == "" and "T" in res:
            if res["T"].get("k") == "null":
                return
            self.hs[n] = {"b": res["b"], "o": res["o"], "T": res["T"], "fl": res["fl"]}

    def mk(self, a, **kw):
        n = self.name()
        self.bind(n, self.r.do(a=a, r=n, **kw))
        return n

    def overlap_ok(self, T, o, b, y):
        h = self.hs[y]
        L = leaves(T, o)
        if len(set(L)) != len(L):
            return False
        if h["b"] != b:
            return True
        L2 = leaves(h["T"], h["o"])
        return not (set(L) & set(L2)) or (L == L2 and skel(T) == skel(h["T"]))

    # -- operations
    def new(self):
        T = self.rtype()
        if nleaves(T) > 60:
            return
        self.mk("new", tp=tstr(T), ty=T, v=self.value(T), fl=self.g.choice([3, 3, 3, 1, 5]))

    def newext(self, fl=None):
        g = self.g
        t = g.choice(self.scalars)
        nd = g.choice([0, 1, 1, 2, 2, 3, 4])
        n = g.randint(1, 24)
        for _ in range(50):
            sh = [g.choice([0, 1, 2, 2, 3, 3, 4]) for _ in range(nd)]
            if g.random() < .5:  # a dense layout, axes in any order and direction
                st = [0] * nd
                acc = 1
                perm = list(range(nd))
                g.shuffle(perm)
                for i in perm:
                    st[i] = acc * g.choice([1, 1, -1])
                    acc *= max(1, sh[i]) * (1 if g.random() < .8 else 2)
            else:
                st = [g.choice([0, 1, 2, 3, 4, 6, -1, -2, -3]) for _ in range(nd)]
            lo = sum((s - 1) * x for s, x in zip(sh, st) if s > 0 and x < 0)
            hi = sum((s - 1) * x for s, x in zip(sh, st) if s > 0 and x > 0)
            if 0 in sh:
                lo = hi = 0
            if hi - lo < n:
                break
        else:
            return
        off = -lo + g.randint(0, n - 1 - (hi - lo))
        self.mk("newext", tp=t, v=[g.randint(0, 100) for _ in range(n)], sh=sh, st=st, off=off,
                fl=g.choice([3, 3, 1]) if fl is None else fl, **self.nullobj())

    def nullobj(self):
        if self.g.random() < .25 and not getattr(self, "null_used", False):
            self.null_used = True
            return {"on": 1}
        return {}

    def ix1(self, n):
        g = self.g
        if g.random() < .45:
            return {"k": "i", "i": g.randint(-n, n - 1) if n > 0 and g.random() < .93 else g.randint(-n - 2, n + 2)}
        s = g.choice([1, 1, 1, 2, 3, -1, -1, -2, -3, 5])
        am = int(g.random() < .35)
        bm = int(g.random() < .35)
        if g.random() < .9 and n > 0:
            a, b = g.randint(-n, n - 1), g.randint(-n, n)
            if s < 0:
                b = g.randint(-n, n - 1)
            if g.random() < .5:  # make non-empty more likely
                a0, b0 = a % n, b % n if b != n else n
                if s > 0 and a0 >= b0:
                    a, b = b0 % n, max(a0, b0)
                if s < 0 and a0 <= b0:
                    a, b = b0, a0
        else:
            a, b = g.randint(-n - 3, n + 3), g.randint(-n - 3, n + 3)
        return {"k": "r", "a": 0 if am else a, "b": 0 if bm else b, "s": s, "am": am, "bm": bm}

    def ixlist(self, T):
        ix = []
        k = self.g.choice([0, 1, 1, 1, 2, 2, 3, 4])
        while len(ix) < k:
            if T["k"] == "dim":
                ix.append(self.ix1(T["n"]))
                T = T["el"]
            elif T["k"] == "leaf":
                if self.g.random() < .97:
                    break
                ix.append(self.ix1(2))
            else:
                x = self.ix1(len(T["f"]))
                ix.append(x)
                if x["k"] == "i" and -len(T["f"]) <= x["i"] < len(T["f"]):
                    T = T["f"][x["i"]]["t"]
                else:
                    # the same further indices must suit every selected field
                    if self.g.random() < .8 or not T["f"]:
                        break
                    T = T["f"][0]["t"]
        return ix

    def at(self):
        x = self.pick()
        if x:
            self.mk("at", x=x, ix=self.ixlist(self.hs[x]["T"]))

    def field(self):
        x = self.pick(lambda h: dtype(h["T"])["k"] == "struct")
        if x:
            f = dtype(self.hs[x]["T"])["f"]
            self.mk("field", x=x, n=self.g.choice([q["n"] for q in f] * 6 + ["nope"]))

    def permute(self):
        x = self.pick(lambda h: ndim(h["T"]) > 0)
        if x:
            n = self.g.randint(1, ndim(self.hs[x]["T"]))
            ax = list(range(n))
            self.g.shuffle(ax)
            if self.g.random() < .05:
                ax[0] = self.g.randint(-1, n)
            if self.g.random() < .03:
                ax = list(range(ndim(self.hs[x]["T"]) + 1))
            self.mk("permute", x=x, ax=ax)

    def transpose(self):
        x = self.pick(lambda h: ndim(h["T"]) > 0)
        if x:
            self.mk("transpose", x=x)

    def rotate(self):
        x = self.pick(lambda h: ndim(h["T"]) > 0)
        if x:
            n = ndim(self.hs[x]["T"])
            self.mk("rotate", x=x, to=self.g.randrange(n), **{"from": self.g.randrange(n)})

    def newaxis(self):
        x = self.pick(lambda h: ndim(h["T"]) < 5)
        if x:
            self.mk("newaxis", x=x, i=self.g.randint(0, ndim(self.hs[x]["T"])), n=self.g.choice([1, 1, 2]))

    def reshape(self):
        def ok(h):
            T = h["T"]
            d = dtype(T)
            return d["k"] == "leaf" and d["t"] in SIZES and nleaves(T) > 0 and contig(T, SIZES[d["t"]]) is not None
        x = self.pick(ok)
        if x:
            n = nleaves(self.hs[x]["T"])
            sh = []
            while n > 1 and len(sh) < 3:
                d = self.g.choice([k for k in range(1, n + 1) if n % k == 0])
                sh.append(d)
                n //= d
            sh.append(n)
            self.g.shuffle(sh)
            if self.g.random() < .06:
                sh[0] += 1
            self.mk("reshape", x=x, sh=sh)

    def viewas(self):
        x = self.pick(lambda h: dtype(h["T"])["k"] == "leaf" and dtype(h["T"])["t"] in INTLIKE)
        if x:
            T = self.hs[x]["T"]
            t = dtype(T)["t"]
            op = self.g.choice(["viewas", "viewas", "viewscalars"])
            u = self.g.choice([y for y in INTLIKE if SIZES[y] == SIZES[t]])
            if op == "viewas" and self.g.random() < .1:
                u = self.g.choice(INTLIKE)
            if op == "viewscalars" and not (ndim(T) == 1 and T["s"] == SIZES[t]):
                op = "viewas"
            self.mk(op, x=x, t=u)

    def storage(self):
        x = self.pick(lambda h: not any(t.startswith("float") or t == "bool" for t in leaftypes(h["T"])))
        if x:
            self.mk("storage", x=x)

    def pack(self):
        k = self.g.randint(1, 4)
        xs = [self.pick(nobytes) for _ in range(k)]
        if xs[0] and sum(nleaves(self.hs[x]["T"]) for x in xs) <= 40:
            names = self.g.sample(NAMES, k) if self.g.random() < .6 else []
            self.mk("pack", xs=xs, n=names)

    def dup(self):
        x = self.pick()
        if x:
            self.mk("dup", x=x)

    def drop(self):
        x = self.pick()
        if x:
            self.r.do(a="drop", x=x)
            del self.hs[x]

    def copyop(self):
        x = self.pick(nobytes)
        if not x:
            return
        a = self.g.choice(["evalcopy", "evalcopy", "eval", "tohost", "emptylike"])
        if a == "evalcopy":
            self.mk(a, x=x, fl=self.g.choice([0, 1, 3, 5, 7]))
        elif a == "emptylike":
            self.mk(a, x=x, v=self.value(self.hs[x]["T"]))
        else:
            self.mk(a, x=x)

    def same_d(self, D, S):
        D, S = dtype(D), dtype(S)
        if D["k"] == "leaf":
            return S["k"] == "leaf" and "bool" not in (D["t"], S["t"]) and not (D["t"] + S["t"]).count("bytes")
        if D["k"] == "tuple" and S["k"] == "tuple" and len(D["f"]) == len(S["f"]):
            return all(self.same_d(p["t"], q["t"]) for p, q in zip(D["f"], S["f"]))
        if D["k"] == "struct" and S["k"] == "struct":
            m = {q["n"]: q["t"] for q in S["f"]}
            return all(p["n"] in m and self.same_d(p["t"], m[p["n"]]) for p in D["f"])
        return False

    def variant(self, D):
        """a record type assignable to D: other field order, other scalars, fewer or size-one dimensions in fields"""
        g = self.g
        if D["k"] == "leaf":
            return D if g.random() < .6 or D["t"].startswith("bytes") or D["t"] == "bool" else self.scalar()
        if D["k"] == "dim":
            r = g.random()
            if r < .1:
                return self.variant(D["el"])
            return dim(1 if r < .2 else D["n"], self.variant(D["el"]))
        f = [dict(q, t=self.variant(q["t"])) for q in D["f"]]
        if D["k"] == "struct" and g.random() < .7:
            g.shuffle(f)
        return {"k": D["k"], "f": f}

    def source_for(self, T):
        """a handle assignable to T (usually), possibly freshly made"""
        y = self.pick(lambda h: self.same_d(T, h["T"]) and broadcast_ok(T, h["T"]))
        if y is None or self.g.random() < .3:
            y2 = self.pick(lambda h: self.same_d(T, h["T"]))
            y = y2 if self.g.random() < .3 or y is None else y
        if (y is None or self.g.random() < .3) and nleaves(T) <= 60:
            sh = shape(T)
            d = dtype(T)
            if any(t.startswith("bytes") for t in leaftypes(T)):
                return y
            S = self.scalar() if d["k"] == "leaf" else strip(d) if self.g.random() < .3 else self.variant(strip(d))
            cut = self.g.randint(0, len(sh))
            for n in reversed(sh[cut:]):
                S = dim(1 if self.g.random() < .25 else n, S)
            if nleaves(S) <= 60:
                y = self.mk("new", tp=tstr(S), ty=S, v=self.value(S), fl=3)
        return y

    def assign(self):
        x = self.pick(lambda h: len(leaves(h["T"], 0)) == len(set(leaves(h["T"], 0))))
        if not x:
            return
        y = self.source_for(self.hs[x]["T"])
        h = self.hs[x]
        if y and y in self.hs and y != x and self.overlap_ok(h["T"], h["o"], h["b"], y):
            self.r.do(a=self.g.choice(["assign", "vals"]), x=x, y=y)

    def valsat(self):
        x = self.pick(lambda h: ndim(h["T"]) > 0)
        if not x:
            return
        h = self.hs[x]
        ix = self.ixlist(h["T"])
        if not 1 <= len(ix) <= 3:
            return
        q = index(h["T"], ix)
        if q is None:
            y = self.pick(lambda g: self.same_d(h["T"], g["T"]))
        else:
            y = self.source_for(q[1])
        if y and y in self.hs and y != x and (q is None or self.overlap_ok(q[1], h["o"] + q[0], h["b"], y)):
            self.r.do(a="valsat", x=x, y=y, ix=ix)

    def setnum(self):
        x = self.pick(lambda h: dtype(h["T"])["k"] == "leaf" and dtype(h["T"])["t"] != "bool" and nobytes(h))
        if x:
            h = self.hs[x]
            L = leaves(h["T"], 0)
            self.r.do(a="setnum", x=x, v=self.g.randint(0, 100))

    def poke(self):
        x = self.pick(lambda h: len(leaves(h["T"], 0)) == len(set(leaves(h["T"], 0))))
        if x:
            self.r.do(a="poke", x=x, v=self.value(self.hs[x]["T"]))

    def concat(self):
        x = self.pick(lambda h: ndim(h["T"]) == 1 and h["T"]["n"] > 0 and dtype(h["T"])["k"] == "leaf" and nobytes(h))
        if x:
            y = self.pick(lambda h: ndim(h["T"]) == 1 and h["T"]["n"] > 0 and (skel(dtype(h["T"])) == skel(dtype(self.hs[x]["T"])))) \
                if self.g.random() < .8 else self.pick(lambda h: nleaves(h["T"]) > 0)
            if nleaves(self.hs[x]["T"]) + nleaves(self.hs[y]["T"]) <= 30:
                self.mk("concat", x=x, y=y)

    def equals(self):
        def ok(h):  # comparison of records holding arrays is not offered
            d = dtype(h["T"])
            return nobytes(h) and d["k"] == "leaf" or d["k"] != "leaf" and all(f["t"]["k"] == "leaf" for f in d["f"])
        x = self.pick(ok)
        if x:
            y = self.pick(lambda h: skel(h["T"]) == skel(self.hs[x]["T"])) if self.g.random() < .8 else self.pick(ok)
            self.r.do(a="equalsexact", x=x, y=y)

    def obs(self):
        self.r.do(a="obs")

    WEIGHTS = dict(new=3, newext=3, at=10, field=3, permute=3, transpose=2, rotate=2, newaxis=2, reshape=2, dup=2, viewas=3, storage=1, pack=2,
                   drop=6, copyop=3, assign=5, valsat=4, setnum=2, poke=1, concat=1, equals=0, obs=1)

    def run(self, n, weights=None):
        w = dict(self.WEIGHTS)
        w.update(weights or {})
        ops, ws = list(w), list(w.values())
        self.newext()
        self.new()
        for _ in range(n):
            if self.r.dead:
                return
            if len(self.hs) >= self.maxh:
                self.drop()
                continue
            op = self.g.choices(ops, ws)[0]
            getattr(self, op)()
        self.obs()

    def finish(self):
        while self.hs and not self.r.dead:
            self.drop()


def strip(T):
    """layout -> type"""
    if T["k"] == "leaf":
        return T
    if T["k"] == "dim":
        return dim(T["n"], strip(T["el"]))
    return {"k": T["k"], "f": [dict(([("n", f["n"])] if "n" in f else []) + [("t", strip(f["t"]))]) for f in T["f"]]}


def resolve(x, n):
    """(start, step, size, single) or None -- only used to avoid generating self-overlapping assignments"""
    if x["k"] == "i":
        i = x["i"]
        if -n <= i < n:
            return (i % n, 1, 1, True)
        return None
    try:
        rg = range(n)[slice(None if x["am"] else x["a"], None if x["bm"] else x["b"], x["s"])]
    except Exception:
        return None
    return (rg[0] if len(rg) else 0, x["s"], len(rg), False)


def index(T, ix):
    if not ix:
        return (0, T)
    if T["k"] == "leaf":
        return None
    if T["k"] == "dim":
        q = resolve(ix[0], T["n"])
        if q is None:
            return None
        s = index(T["el"], ix[1:])
        if s is None:
            return None
        if q[3]:
            return (q[0] * T["s"] + s[0], s[1])
        return (q[0] * T["s"] + s[0], {"k": "dim", "n": q[2], "s": T["s"] * q[1], "el": s[1]})
    q = resolve(ix[0], len(T["f"]))
    if q is None:
        return None
    if q[3]:
        f = T["f"][q[0]]
        s = index(f["t"], ix[1:])
        return None if s is None else (f["o"] + s[0], s[1])
    out = []
    for i in range(q[2]):
        f = T["f"][q[0] + i * q[1]]
        s = index(f["t"], ix[1:])
        if s is None:
            return None
        out.append(dict(f, o=f["o"] + s[0], t=s[1]))
    return (0, {"k": T["k"], "f": out})
