"""C16: memory of variable-sized data and of objects (spec/DyndBlock.tla)."""
from common import *
from elwise import replay

# type -> objects in an element
PODS = ["int8", "int32", "float64", "3 * int16", "10 * float64", "{x: int8, y: int64}", "complex[float64]"]
ZEROS = ["var * int32", "{a: int8, b: var * int64}", "2 * var * int8"]
OBJS = {"obj": 1, "{int8,obj}": 1, "{obj,string,obj}": 2, "(obj,int32)": 1, "2*obj": 2, "2*3*obj": 6, "2*{int8,obj}": 2, "{a:2*obj}": 2,
        "3*{obj,string,obj}": 6, "2*(obj,int32)": 2, "string": 0, "{a: int32, b: string}": 0, "2 * string": 0, "(string, int8, string)": 0, "3 * {a: string, b: string}": 0,
        "{int8,2*obj,string}": 2, "(2*3*obj,obj)": 7, "3*(2*{int8,obj},int32)": 6, "(int8, 3 * {a: 2 * string, b: int8})": 0}


def blocks(kind, tp, via, cap, ops):
    return dict(a="blocks", kind=kind, tp=tp, via=via, cap=cap, leaves=OBJS.get(tp, 0), empty=int(tp.startswith("0")), ops=ops)


def pick(rng, kind, var=False):
    if kind == "object":
        return rng.choice(list(OBJS) + (["0 * string"] if rng.random() < 0.1 else []))
    if var:
        return rng.choice(ZEROS if kind == "zeroinit" else ["10 * float64", "10 * float64", "3 * {x: int8, y: int64}", "0 * int32"])
    return rng.choice(PODS + ZEROS)


def from_model(rng, g):
    tp = pick(rng, g["kind"])
    ops = g["ops"] + [{"op": "drop"}]
    return blocks(g["kind"], tp, g["kind"], 2, ops)


def history(rng):
    kind = rng.choice(["object", "object", "zeroinit", "pod"])
    var = rng.random() < 0.3
    tp = pick(rng, kind, var)
    cap = rng.choice([0, 1, 2, 3, 5, 8, 20])
    n = []                                     # sizes of the regions
    ops = []
    v = 1
    big = 64 if var else max(4, cap)
    lim = 80
    released = 0
    for i in range(rng.randint(3, 12)):
        k = rng.choice(["alloc", "alloc", "resize", "resize", "resize", "fill", "fill", "fill", "reset", "release"])
        if k in ("alloc", "resize") and sum(n) > 400:
            k = "reset"
        if k == "alloc":
            m = rng.choice([0, 1, 1, 2, 3, rng.randint(0, big), big, big + 1])
            n.append(m)
            ops.append({"op": k, "n": m})
        elif k == "resize" and n:
            m = rng.choice([0, n[-1], n[-1] + 1, 2 * n[-1], n[-1] // 2, max(0, n[-1] - 1), rng.randint(0, 2 * big)])
            n[-1] = m
            ops.append({"op": k, "n": m})
        elif k == "fill" and n:
            j = rng.choice([len(n), rng.randint(1, len(n))])
            if kind != "object":
                if n[j - 1] >= lim:
                    continue
                v = rng.randint(1, lim - n[j - 1])
            ops.append({"op": k, "i": j, "v": v})
            v += n[j - 1]
        elif k == "reset" and ops and rng.random() < 0.5:
            n = []
            ops.append({"op": k})
        elif k == "release" and var and not released:
            released = 1
            ops.append({"op": k})
    ops.append({"op": "drop"})
    return blocks(kind, tp, "var" if var else kind, cap, ops)


def objects(rng):
    tp = rng.choice([t for t in OBJS if OBJS[t]])
    dims = {"2*obj": [2], "2*3*obj": [2, 3], "2*{int8,obj}": [2], "3*{obj,string,obj}": [3], "2*(obj,int32)": [2], "3*(2*{int8,obj},int32)": [3]}.get(tp, [])
    refs = [dims]
    alive = [1]
    ops = [{"op": "fill", "v": rng.randint(1, 1000)}]
    for i in range(rng.randint(1, 8)):
        if not alive:
            break
        i = rng.choice(alive)
        d = refs[i - 1]
        k = rng.choice(["copy", "slice", "slice", "at", "drop", "drop", "drop"])
        if k in ("slice", "at") and not d:
            k = "copy"
        op = {"op": k, "i": i}
        if k == "fill":
            op["v"] = rng.randint(1, 1000)
        if k == "slice":
            a = rng.randint(0, d[0] - 1) if d[0] else 0
            if not d[0]:
                continue
            b = rng.randint(a + 1, d[0])
            s = rng.choice([1, 1, 2])
            op.update(a=a, b=b, s=s)
            refs.append([(b - a + s - 1) // s] + d[1:])
        elif k == "at":
            if not d[0]:
                continue
            op["a"] = rng.randint(0, d[0] - 1)
            refs.append(d[1:])
        elif k == "copy":
            refs.append(d)
        if k == "drop":
            alive.remove(i)
        else:
            op["n"] = len(refs)
            alive.append(len(refs))
        ops.append(op)
    return dict(a="objects", tp=tp, leaves=OBJS[tp], empty=0, ops=ops)


def gen(rng):
    return history(rng) if rng.random() < 0.75 else objects(rng)


def _batch(a):
    seed, n = a
    rng = random.Random(seed)
    d = Driver()
    out = []
    for i in range(n):
        r = Recorder(d)
        r.do(**gen(rng))
        out.append(r.events)
    d.close()
    return out


def run(pid):
    chk = Check(pid)
    build()
    rng = random.Random(SEED)
    hists = gens(chk.model("BlockMC", "BlockMC6.cfg" if THOROUGH else "BlockMC.cfg", workers=NPROC))
    k = 1 if THOROUGH else 12
    cmds = [from_model(rng, x) for i, x in enumerate(hists) if i % k == SEED % k]
    chk.cov["enumerated_calls"] = len(cmds)
    ok = chk.validate("BlockTrace", "BlockTrace.cfg", replay(cmds), label="enum")
    rounds = 0
    while ok:
        n = 3000 if THOROUGH else 500
        s = [x for b in pparallel(_batch, [(SEED * 1000 + rounds * 64 + i, n) for i in range(NPROC)]) for x in b]
        ok = chk.validate("BlockTrace", "BlockTrace.cfg", s, label="rand%d" % rounds)
        rounds += 1
        if not THOROUGH or chk.left(600) < 0:
            break
    return chk.finish()
