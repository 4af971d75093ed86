"""C01-C04: the array/view machine (spec/DyndHeap.tla) and its conformance to the library."""
from common import *
from heapgen import *


def _random_batch(a):
    seed, n, nops, weights, live = a
    d = Driver()
    out = []
    for k in range(n):
        r = Recorder(d)
        rng = random.Random(seed * 100003 + k)
        if not live:
            r.do(a="reset")
            g = HeapGen(rng, r)
            g.run(nops, weights)
            g.finish()
        else:
            # the same session twice: the second run must leave memory use where it started
            r.do(a="reset")
            st = rng.getstate()
            g = HeapGen(rng, r)
            g.run(nops, weights)
            g.finish()
            r.do(a="reset")
            r.do(a="live", first=1)
            rng.setstate(st)
            g = HeapGen(rng, r)
            g.run(nops, weights)
            g.finish()
            r.do(a="reset")
            r.do(a="live", first=0)
        out.append(r.events)
    d.close()
    return out


def random_sessions(seed0, total, nops, weights=None, live=False):
    jobs = [(seed0 * 1000 + i, (total + NPROC - 1) // NPROC, nops, weights, live) for i in range(NPROC)]
    return [s for b in pparallel(_random_batch, jobs) for s in b]


def _gen_batch(hists):
    out = []
    d = Driver()
    for h in hists:
        r = Recorder(d)
        r.do(a="reset")
        for c in h:
            r.do(**c)
        r.do(a="obs")
        out.append(r.events)
    d.close()
    return out


def generated(chk, num, depth=15):
    """behaviours TLC takes through HeapMC in simulation mode, replayed on the library"""
    rc, out = tlc("HeapMC", "HeapGen.cfg", 600, extra=["-simulate", "num=%d" % max(30, num // 10), "-depth", str(depth), "-seed", str(SEED)], xmx="4g")
    h = gens(out)
    if len(h) < num // 3:
        raise CheckError("HeapGen produced %d behaviours: %s" % (len(h), out[-1500:]))
    # TLC evaluates the printing invariant on several successors of each behaviour: keep one in a few
    random.Random(SEED).shuffle(h)
    h = h[:num]
    chk.cov["generated_behaviours"] = len(h)
    return [s for b in pparallel(_gen_batch, split(h, NPROC)) for s in b]


def leafv(k, n):
    return [(k * 7 + i * 3) % 101 for i in range(n)]


def _index_batch(a):
    variant, cases = a
    out = []
    d = Driver()
    byn = {}
    for c in cases:
        byn.setdefault(c["n"], []).append(c["x"])
    for n, xs in byn.items():
        for part in split(xs, max(1, len(xs) // 60)):
            r = Recorder(d)
            r.do(a="reset")
            pre, post = [], []
            if variant == 0:
                T, v = dim(n, leaf("int16")), leafv(1, n)
            elif variant == 1:
                T, v = dim(2, dim(n, leaf("int32"))), [leafv(2, n), leafv(5, n)]
                pre = [{"k": "r", "a": 0, "b": 0, "s": -1, "am": 1, "bm": 1}]
            elif variant == 2:
                T = dim(n, {"k": "struct", "f": [{"n": "x", "t": leaf("int8")}, {"n": "y", "t": dim(2, leaf("float64"))}]})
                v = [[i, [i + 20, i + 40]] for i in range(n)]
            elif variant == 3:
                T = {"k": "tuple", "f": [{"t": dim(2, leaf(["int8", "int64", "float32", "int16"][i]))} for i in range(n)]}
                v = [[i + 1, i + 51] for i in range(n)]
                post = [{"k": "i", "i": 1}]
            else:
                T = {"k": "struct", "f": [{"n": "abcd"[i], "t": dim(3, leaf(["int8", "int64", "float32", "int16"][i]))} for i in range(n)]}
                v = [[i + 1, i + 51, i + 71] for i in range(n)]
                post = [{"k": "r", "a": 0, "b": 2, "s": 1, "am": 1, "bm": 0}]
            if variant == 5:
                r.do(a="newext", r="h1", tp="int32", v=leafv(3, 3 * max(1, n) + 1), sh=[n], st=[-2], off=2 * max(0, n - 1) + 1, fl=3)
            else:
                r.do(a="new", r="h1", tp=tstr(T), ty=T, v=v, fl=3)
            for i, x in enumerate(part):
                name = "i%d" % i
                q = r.do(a="at", r=name, x="h1", ix=pre + [x] + post)
                if q["e"] == "":
                    r.do(a="drop", x=name)
            out.append(r.events)
    d.close()
    return out


def index_cases(chk, thorough):
    out = chk.model("IndexMC", "IndexMC.cfg", workers=4, xmx="2g")
    cases = gens(out)
    if len(cases) < 3000:
        raise CheckError("IndexMC enumerated only %d cases" % len(cases))
    chk.cov["index_cases"] = len(cases)
    variants = range(6)
    jobs = []
    for v in variants:
        cs = cases if thorough or v == 0 else [c for i, c in enumerate(cases) if (i * 7 + v) % 6 == SEED % 6]
        for p in split(cs, 2 if not thorough else NPROC):
            jobs.append((v, p))
    return [s for b in pparallel(_index_batch, jobs) for s in b]


PROFILES = {
    "C01": dict(at=16, field=5, permute=6, transpose=4, rotate=4, newaxis=4, reshape=4, assign=2, valsat=2, setnum=1, copyop=2),
    "C02": dict(pack=5, assign=12, valsat=9, setnum=4, poke=3, copyop=5, concat=3, equals=2, at=8, emptylike=1),
    "C03": dict(drop=14, newext=6, dup=4, copyop=5, at=8, concat=2),
    "C04": dict(viewas=6, assign=6, valsat=6, setnum=5, poke=4, copyop=8, at=8),
}


def prof(pid):
    w = dict(PROFILES[pid])
    w.pop("emptylike", None)
    return w


def run(pid):
    chk = Check(pid)
    build()
    T = THOROUGH
    chk.model("HeapMC", "HeapMC4.cfg" if T else "HeapMC.cfg", timeout=700)
    ok = True
    if pid == "C01":
        ok = chk.validate("HeapTrace", "HeapTrace.cfg", index_cases(chk, T), label="index")
    if ok:
        ok = chk.validate("HeapTrace", "HeapTrace.cfg", generated(chk, 3000 if T else 400), label="gen")
    live = pid == "C03"
    rounds = 0
    while ok:
        s = random_sessions(SEED * 50 + rounds + ord(pid[2]) * 7919, (3000 if T else 560) // (2 if live else 1), 22, prof(pid), live)
        ok = chk.validate("HeapTrace", "HeapTrace.cfg", s, label="rand%d" % rounds)
        rounds += 1
        if not T or chk.left(600) < 0:
            break
    chk.cov["bounds"] = "arrays of at most 60 scalars, at most 4 dimensions, 2 levels of fields"
    return chk.finish()
