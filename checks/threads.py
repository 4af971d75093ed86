"""C20: objects and callables shared by threads (spec/DyndThread.tla)."""
from common import *
import arith, compare, dtypes, elwise, number, reduce, selects, strings, texts
from arith import REAL
from number import SIZE
import json

KINDS = ["block", "array", "type", "callable"]


def refs(rng, p, keep, reps, kind=None):
    """a program of the model, with uses and busy steps in place"""
    ps = []
    kind = kind or rng.choice(KINDS)
    views = kind == "array" and rng.random() < 0.3
    for q in p:
        s = "".join((rng.choice("nu") if x == "n" else "v" if x == "c" and views and rng.random() < 0.5 else x) for x in q)
        held, o = 1, ""
        for x in s:
            if held and rng.random() < 0.25:
                o += "h"
            held += (x in "cv") - (x == "r")
            o += x
        if held and rng.random() < 0.25:
            o += "h"
        ps.append(o)
    return dict(a="refs", kind=kind, p=ps, q=[list(o) for o in ps], keep=keep, reps=reps)


def rand_program(rng):
    held, o = 1, ""
    for i in range(rng.randint(0, 12)):
        if not held:
            break
        x = rng.choice("ccrrrnuh" if held < 6 else "rrrnuh")
        held += (x == "c") - (x == "r")
        o += x
    if rng.random() < 0.6:
        o += "r" * held
    return o


def cases(rng):
    return {t: [[rng.choice([0, 1, 64, 127, 128, 255, rng.randrange(256)]) for i in range(SIZE[t])] for k in range(12)] if t != "bool" else [[0], [1]] for t in SIZE}


def command(rng, cs):
    k = rng.randrange(10)
    if k == 0:
        return arith.gen(rng, cs)
    if k == 1:
        return number.gen(rng, cs)
    if k == 2:
        return compare.gen(rng, cs)
    if k == 3:
        return selects.gen(rng)
    if k == 4:
        return dict(a="call", **elwise.gen_call(rng))
    if k == 5:
        return reduce.gen_call(rng)
    if k == 6:
        return strings.gen(rng)
    if k == 7:
        return texts.cmd(rng, ["".join(rng.choice("0123456789.e-+") for i in range(rng.randint(1, 9))) for j in range(3)])
    if k == 8:
        return dtypes.ev_parse(rng)
    return dtypes.ev_match(rng)


def together(rng, reps):
    cs = cases(rng)
    n = rng.choice([2, 3, 4])
    # the same calls in every thread, or other ones in each
    if rng.random() < 0.5:
        s = [command(rng, cs) for i in range(rng.randint(6, 16))]
        seqs = [s[:] for i in range(n)]
        for s in seqs[1:]:
            rng.shuffle(s)
    else:
        seqs = [[command(rng, cs) for i in range(rng.randint(6, 16))] for t in range(n)]
    return dict(a="together", seqs=json.dumps(seqs), reps=reps)


def burst_call(rng, kind):
    if kind == "elwise":
        x = elwise.gen_call(rng, budget=12)
        while "dst" in x:
            x = elwise.gen_call(rng, budget=12)
        return dict(k="call", f=x["f"], args=x["args"])
    if kind == "reduce":
        x = reduce.gen_call(rng)
        return dict(k="call", f=x["f"], args=x["args"], kw=x["kw"])
    if kind == "outer":
        n = rng.choice([1, 2, 2, 2, 3])
        sh = [[rng.choice([1, 2, 3]) for i in range(rng.choice([0, 1, 1, 2] if n < 3 else [0, 1]))] for q in range(n)]
        return dict(k="outer", args=[ints(rng, s) for s in sh])
    if kind == "assign":
        s = [rng.choice([1, 2, 3]) for i in range(rng.choice([0, 1, 2]))]
        t = rng.choice(["int8", "int16", "int64", "float64", "uint8", "int32", "float32"])
        d = rng.choice(["", "2 * "]) + "".join(rng.choice(["var * ", "%d * " % k, "%d * " % k]) for k in s)
        return dict(k="assign", args=[ints(rng, s)], tp=d + t)
    if kind == "part":
        return dict(k="part", args=[ints(rng, [3, 2])], i=rng.randrange(3))
    if kind == "json":
        t, v = rng.choice([("3 * int32", "[%d, 2, 3]"), ("var * ?int32", "[null, %d]"), ("{x: int32, y: var * string}", '{"x": %d, "y": ["ab", "c"]}'),
                           ("(int32, float64)", "[%d, 2.5]"), ("var * string", '["a%d", "\\u00e9"]'), ("2 * int8", "[%d, 1]")])
        return dict(k="json", tp=t, s=v % rng.randrange(100))
    x = rng.choice(["3 * %d * int32", "var * {x: %d * float64, y: ?string}", "(int%d, string)", "fixed_string[%d]", "(%d * int32, x: string) -> float64", "bytes[align=%d]", "Fixed * T%d"])
    return dict(k="type", s=x % rng.choice([1, 2, 4, 8, 16]))


def ints(rng, s):
    def v(q):
        return rng.randrange(10) if not q else [v(q[1:]) for i in range(q[0])]
    return dict(tp="".join("%d * " % k for k in s) + "int32", v=v(s), w=rng.choice([0, 0, 2, 3]) if s else 0)


BURST = ["elwise", "reduce", "outer", "assign", "part", "json", "type"]


def burst(rng, kind, reps):
    """a few calls of one kind, made by all threads over and over"""
    n = rng.choice([2, 3, 4])
    same = int(rng.random() < 0.4)
    k = rng.choice([1, 1, 2, 3])
    mixed = rng.random() < 0.25
    seqs = [[burst_call(rng, rng.choice(BURST) if mixed else kind) for i in range(k)] for t in range(n)]
    return dict(a="burst", seqs=json.dumps(seqs), same=same, reps=reps)


def _batch(a):
    cmds = a
    d = Driver()
    out = []
    for c in cmds:
        r = Recorder(d)
        r.do(**c)
        out.append(r.events)
    d.close()
    return out


def replay(cmds, k=3):
    return [s for b in pparallel(_batch, split(cmds, k), n=k) for s in b]


def run(pid):
    chk = Check(pid)
    chk.racy = 5
    build()
    rng = random.Random(SEED)
    progs = gens(chk.model("ThreadMC", "ThreadMC4.cfg" if THOROUGH else "ThreadMC.cfg", workers=NPROC))
    progs += gens(chk.model("ThreadMC", "ThreadMC3.cfg", workers=NPROC))
    chk.cov["enumerated_programs"] = len(progs)
    rng.shuffle(progs)
    reps = 60 if not THOROUGH else 400
    cmds = [refs(rng, g["p"], g["keep"], reps) for g in progs[:150 if not THOROUGH else 4000]]
    # everybody takes and gives back at once, and nobody keeps the object: the last one destroys it
    for k in KINDS:
        for s in ["h", "hr", "r", "crr", "ccrcrrr", "uhnr"]:
            for n in (2, 4):
                cmds.append(refs(random.Random(0), [], rng.randint(0, 1) if s == "h" else 0, 2 * reps, k))
                cmds[-1]["p"] = [s] * n
                cmds[-1]["q"] = [list(s)] * n
    ok = chk.validate("ThreadTrace", "ThreadTrace.cfg", replay(cmds), label="enum")
    rounds = 0
    while ok:
        cmds = [refs(rng, [rand_program(rng).replace("u", "n") for t in range(rng.randint(2, 4))], rng.randint(0, 1), reps) for i in range(30)]
        cmds += [together(rng, 4) for i in range(90)]
        cmds += [burst(rng, k, 300 if not THOROUGH else 1500) for k in BURST for i in range(12)]
        rng.shuffle(cmds)
        ok = chk.validate("ThreadTrace", "ThreadTrace.cfg", replay(cmds), label="rand%d" % rounds)
        rounds += 1
        if not THOROUGH or chk.left(600) < 0:
            break
    return chk.finish()
