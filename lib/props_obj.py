"""Dense-tensor objects, file reader and synthetic data (C08, C11, C32)."""
import copy, random
from props_ops import prod, ints, arange
from props_train import fxof, val

DTS = ["float32", "float64", "int32", "int64"]


# ---- C08 -------------------------------------------------------------------
class Obj:
    def __init__(self, s, bound):
        self.s, self.bound = list(s), bound


def first_objs(rng, s, n=1):
    return [dict(T=ints(rng, s, -3, 3, 0.05) if rng.random() < 0.5 else small_distinct(rng, s), how=rng.choice(["np", "tensor", "ph"])) for _ in range(n)]


def small_distinct(rng, s):
    d = [i + 1 for i in range(prod(s))]
    rng.shuffle(d)
    return {"s": list(s), "d": d}


def obj_of(o):
    return Obj(o["T"]["s"], max([abs(x) for x in o["T"]["d"]] + [1]))


def concrete(rng, name, pool, o):
    """A call named as in spec/DTensor.tla on object o (1-based), or None where it does not apply."""
    x = pool[o - 1]
    s, n = x.s, len(x.s)
    e = dict(o=o)
    res = None
    if name.startswith("unfold"):
        m = 0 if name == "unfold" else min(int(name[6:]), n - 1) if name[6:].isdigit() else rng.randrange(n)
        e.update(op="unfold", mode=m, deflt=name == "unfold")
        res = Obj([s[m], prod(s) // s[m]], x.bound)
    elif name.startswith("t2mat"):
        q = list(range(n))
        if name == "t2mat1":
            q = q[1:] + q[:1]
            k = 1
        else:
            rng.shuffle(q)
            k = rng.randint(0, n)
        cinf = rng.random() < 0.4
        r, c = q[:k], sorted(q[k:]) if cinf else q[k:]
        e.update(op="t2mat", r=r, c=[] if cinf else c, cinf=cinf, rf="int" if len(r) == 1 and rng.random() < 0.5 else "list",
                 cf="int" if len(c) == 1 and rng.random() < 0.5 else "list")
        res = Obj([prod([s[i] for i in r]), prod([s[i] for i in c])], x.bound)
    elif name == "vectorize":
        e.update(op="vectorize")
        res = Obj([prod(s)], x.bound)
    elif name in ("add", "sub", "had"):
        same = [k + 1 for k, p in enumerate(pool) if p.s == s]
        e.update(op=name)
        k = rng.random()
        if k < 0.5:
            e["p"] = rng.choice(same)
            b = pool[e["p"] - 1].bound
        elif k < 0.75:
            e["arg"] = ints(rng, s, -3, 3)
            e["how"] = rng.choice(["tensor", "np"])
            b = 3
        else:
            v = rng.choice([2, 3, -1])
            e["arg"] = {"s": [], "d": [v]}
            e["how"] = "scalar"
            b = 3
        res = Obj(s, x.bound * b if name == "had" else x.bound + b)
    elif name == "mul":
        p = rng.randint(1, len(pool))
        y = pool[p - 1]
        prs = [(i, j) for i in range(n) for j in range(len(y.s)) if s[i] == y.s[j]]
        rng.shuffle(prs)
        pa, qa = [], []
        for i, j in prs:
            if i not in pa and j not in qa and len(pa) < 3 and (not pa or rng.random() < 0.6):
                pa.append(i)
                qa.append(j)
        if not pa:
            return None
        e.update(op="mul", p=p, pa=pa, qa=qa, pf="int" if len(pa) == 1 and rng.random() < 0.6 else "list",
                 qf="int" if len(pa) == 1 and rng.random() < 0.6 else "list")
        if (e["pf"] == "int") != (e["qf"] == "int"):
            e["pf"] = e["qf"] = "list"
        if s[0] == y.s[0] and rng.random() < 0.2:
            pa, qa = [0], [0]
            e.update(pa=pa, qa=qa, deflt=True)
        res = Obj([s[i] for i in range(n) if i not in pa] + [y.s[j] for j in range(len(y.s)) if j not in qa],
                  x.bound * y.bound * prod([s[i] for i in pa]))
    elif name in ("kron", "khatri"):
        if n != 2:
            return None
        e.update(op=name)
        ok = [k + 1 for k, p in enumerate(pool) if len(p.s) == 2 and (name == "kron" or p.s[1] == s[1])]
        if rng.random() < 0.6:
            e["p"] = rng.choice(ok)
            y = pool[e["p"] - 1]
        else:
            sh = [rng.randint(1, 3), s[1] if name == "khatri" else rng.randint(1, 3)]
            e["arg"] = ints(rng, sh, -3, 3)
            e["how"] = "tensor"
            y = Obj(sh, 3)
        res = Obj([s[0] * y.s[0], s[1] * y.s[1] if name == "kron" else s[1]], x.bound * y.bound)
    elif name == "index":
        k = rng.randint(1, n)
        ix = [rng.randrange(s[i]) for i in range(k)]
        if k > 1 and rng.random() < 0.5:
            ix[rng.randrange(k - 1)] = -1
        e.update(op="index", ix=ix)
        return e, None
    elif name == "fold":
        sh = [rng.randint(1, 4) for _ in range(rng.randint(1, 4))]
        m = rng.randrange(len(sh))
        e.update(op="fold", mode=m, s=sh, tup=rng.random() < 0.5, inst=rng.random() < 0.7, how=rng.choice(["tensor", "tensor", "np"]),
                 arg=small_distinct(rng, [sh[m], prod(sh) // sh[m]]))
        res = Obj(sh, prod(sh))
    elif name in ("eval", "shape"):
        e.update(op=name)
        return e, None
    if res is None or res.bound > 10 ** 6 or prod(res.s) > 260:
        return None
    return e, res


NAMES = ["unfoldr", "unfoldr", "unfold", "t2mat2", "t2mat2", "vectorize", "add", "sub", "had", "mul", "kron", "khatri", "index", "fold", "eval", "shape"]


def history(rng, names, s, nobj, chain, thorough=False):
    objs = first_objs(rng, s, nobj)
    if chain and rng.random() < 0.5:
        objs += first_objs(rng, [rng.randint(1, 4), rng.randint(1, 4)])
    pool = [obj_of(o) for o in objs]
    ops = []
    for nm in names:
        o = rng.randint(1, len(pool)) if chain else 1
        if nm in ("kron", "khatri"):
            m2 = [k + 1 for k, p in enumerate(pool) if len(p.s) == 2]
            if m2:
                o = rng.choice(m2)
        if not len(pool[o - 1].s):
            continue
        r = concrete(rng, nm, pool, o)
        if r is None:
            continue
        e, res = r
        ops.append(e)
        if res is not None:
            pool.append(res)
    return dict(objs=objs, ops=ops, dt=rng.choice(DTS))


def c08(ctx):
    rng = random.Random("C08-%s" % ctx.seed)
    for cfg, exp in [("DTensor-ok", "ok"), ("DTensor-reuse", "AnswersFromValue"), ("DTensor-vec", "AnswersFromValue"), ("DTensor-inplace", "ValueStays")]:
        ctx.model_check("DTensor", cfg, expect=exp)
    gen = ctx.generate("DTensor", "DTensorGen", workers=1)
    jobs = []
    for g in gen:
        jobs.append(history(rng, g, [2, 3, 4] if rng.random() < 0.5 else [3, 2, 2], 1, False))
    for _ in range(3000 if ctx.thorough else 500):
        n = rng.randint(1, 4)
        s = [rng.randint(1, 4) for _ in range(n)]
        if rng.random() < 0.3:
            s = [rng.randint(1, 4), rng.randint(1, 4)]
        jobs.append(history(rng, [rng.choice(NAMES) for _ in range(rng.randint(3, 12))], s, rng.randint(1, 3), True))
    for n, j in enumerate(jobs):
        j["id"] = n + 1
    ctx.log("%d histories, %d calls" % (len(jobs), sum(len(j["ops"]) for j in jobs)))
    recs = ctx.drive("dtensor", jobs, timeout=1500 if ctx.thorough else 500)
    recs = [dict(id=r["id"], objs=r.get("objs", []) if "ev" in r else [], ev=r.get("ev", []), **({"err": r["err"]} if "err" in r else {})) for r in recs]
    ctx.log("replayed")
    ctx.samples = jobs[:2] + jobs[-2:]
    v = ctx.judge("DTensorTrace", recs, done=True)
    controls(ctx, "DTensorTrace", [r for r in recs if r["id"] not in v], rng, corrupt_c08)
    return dict(level="model_checking", rule="every history of three calls out of 13 (enumerated by TLC from DTensor) and longer random histories over "
                "several objects including returned ones, replayed on the real class; TLC follows the values of all objects",
                assumptions=["integer-valued data, compared exactly; static shapes"])


def corrupt_c08(rng, d):
    es = [e for e in d["ev"] if "out" in e and len(set(e["out"]["d"])) > 1]
    if not es:
        return False
    e = rng.choice(es)
    k = rng.randrange(3)
    if k == 0 and e["after"] and len(e["after"][0]["T"]["d"]):
        t = e["after"][0]["T"]["d"]
        t[rng.randrange(len(t))] += 1
    else:
        t = e["out"]["d"]
        i = rng.randrange(len(t))
        t[i] += 1
    return True


def controls(ctx, module, good, rng, corrupt, n=8, done=True):
    rng.shuffle(good)
    bad = []
    for c in good:
        d = copy.deepcopy(c)
        if corrupt(rng, d):
            d["id"] = 100000 + len(bad)
            bad.append(d)
        if len(bad) >= n:
            break
    if not bad:
        return
    keep = (list(ctx.violations), ctx.traces, ctx.evaluations, copy.deepcopy(ctx.kinds), dict(ctx.note_counts), ctx.states, ctx.transitions)
    w = ctx.judge(module, bad, done=done)
    (ctx.violations, ctx.traces, ctx.evaluations, ctx.kinds, ctx.note_counts, ctx.states, ctx.transitions) = keep
    rej = sum(1 for x in w.values() if any(t == "FAIL" for t, _ in x))
    ctx.controls = dict(corrupted=len(bad), rejected=rej)
    ctx.log("controls: %d corrupted traces, %d rejected" % (len(bad), rej))


# ---- C11 -------------------------------------------------------------------
def number(rng):
    k = rng.randrange(8)
    if k == 0:
        return str(rng.randint(-9, 9))
    if k == 1:
        return str(rng.randint(-99999, 99999))
    if k == 2:
        return "%d.%s" % (rng.randint(-20, 20), "".join(rng.choice("0123456789") for _ in range(rng.randint(1, 12))))
    if k == 3:
        return "%s%de%s%d" % (rng.choice(["", "-"]), rng.randint(1, 9), rng.choice(["", "+", "-"]), rng.randint(0, 5))
    if k == 4:
        return "%s%d.%02dE%d" % (rng.choice(["", "-", "+"]), rng.randint(0, 9), rng.randint(0, 99), rng.randint(-4, 4))
    if k == 5:
        return rng.choice([".5", "3.", "-.25", "+2", "0", "-0", "0.0", "1e0"])
    if k == 6:
        return "%.15g" % rng.uniform(-1000, 1000)
    if rng.random() < 0.3:
        return "%.*e" % (rng.randint(0, 14), rng.uniform(-10, 10) * 10 ** rng.randint(-8, 8))
    return "%.3f" % rng.uniform(0, 5)


def csv_text(rng, s, entries=None):
    """A text listing distinct entries within shape s, one of them touching the far end of every mode or not."""
    cells = [[]]
    for n in s:
        cells = [c + [k] for c in cells for k in range(n)]
    rng.shuffle(cells)
    es = cells[:entries or rng.randint(1, min(len(cells), 14))]
    how = rng.randrange(4)
    if how == 0:
        es.sort()
    elif how == 1:
        es.sort(reverse=True)
    sp = "" if rng.random() < 0.8 else " "
    nl = "\n" if rng.random() < 0.7 else "\r\n"
    out = ""
    for k, e in enumerate(es):
        if rng.random() < 0.15:
            out += nl * rng.randint(1, 2)
        out += ("," + sp).join([str(q) for q in e] + [number(rng)])
        out += nl if k < len(es) - 1 or rng.random() < 0.7 else ""
    if out.endswith(nl) and rng.random() < 0.3:
        out += nl * rng.randint(1, 2)
    return out, [1 + max(e[m] for e in es) for m in range(len(s))]


NAMESC = ["data.csv", "a.txt", "d.v1.csv", "x.dat.txt", "sub.dir/y.csv", "csv.d/z.txt", "with space.csv", "no_ext.csv/w.csv"]
BADNAMES = ["data.dat", "data.csv.bak", "csv", "x.json", "sub.csv/data", "y.tsv", "z.csv2", "txt", "a.npy"]


def c11(ctx):
    rng = random.Random("C11-%s" % ctx.seed)
    for b, exp in [("ok", "ok"), ("first", "LastReadHolds"), ("shared", "LastReadHolds"), ("early", "LastReadHolds"), ("sticky", "LastReadHolds")]:
        ctx.model_check("Reader", "Reader-" + b, expect=exp)
    gen = ctx.generate("Reader", "ReaderGen", workers=1)
    if not ctx.thorough:
        rng.shuffle(gen)
        gen = gen[:260]
    jobs = []

    def full_of(nat):
        return [n + rng.choice([0, 0, 1, 2, 3]) for n in nat]
    for g in gen:
        # f1, f2 supported, third file unsupported; contents A and B of either file are different texts
        s = [rng.randint(1, 5) for _ in range(rng.randint(1, 4))]
        txt = {(f, x): csv_text(rng, s) for f in "12" for x in "AB"}
        ext = [rng.choice(["csv", "txt"]) for _ in range(2)]
        n2 = [rng.choice([n for n in NAMESC if n.endswith(e)]) for e in ext]
        if n2[0] == n2[1]:
            n2[1] = "other/" + n2[1]
        bad = rng.choice(BADNAMES)
        f2 = next((e["f"] for e in g if e["op"] == "open"), "f2")
        ops = [dict(op="write", f=k, text=list(txt[(str(k), "A")][0])) for k in (1, 2)]
        ops += [dict(op="write", f=3, text=list(csv_text(rng, s)[0])), dict(op="open", r=1), dict(op="open", r=3)]
        cur = {1: "A", 2: "A"}
        for e in g:
            if e["op"] == "write":
                k = int(e["f"][1])
                cur[k] = e["x"]
                ops.append(dict(op="write", f=k, text=list(txt[(str(k), e["x"])][0])))
            elif e["op"] == "open":
                ops.append(dict(op="open", r=2))
            else:
                k = {1: 1, 2: int(f2[1]), 3: 0}[e["r"]]
                ops.append(dict(op="read", r=e["r"], full=full_of(txt[(str(k), cur[k])][1]) if e["full"] and k else [], tup=rng.choice([0, 0, 1, 1, 2])))
        jobs.append(dict(names=n2 + [bad], ext=ext + [bad.split("/")[-1].split(".")[-1] if "." in bad.split("/")[-1] else "none"], of=[1, int(f2[1]), 3], ops=ops, rel=rng.random() < 0.5))
    for _ in range(1500 if ctx.thorough else 300):
        o = rng.choice([1, 1, 2, 2, 3, 3, 3, 4, 4, 5])
        s = [rng.randint(1, {1: 40, 2: 14, 3: 6, 4: 4, 5: 3}[o]) for _ in range(o)]
        name = rng.choice(NAMESC)
        t, nat = csv_text(rng, s)
        ops = [dict(op="write", f=1, text=list(t)), dict(op="open", r=1), dict(op="read", r=1, full=[], tup=1)]
        if rng.random() < 0.5:
            ops.append(dict(op="read", r=1, full=full_of(nat), tup=rng.choice([0, 0, 1, 1, 2])))
        if rng.random() < 0.3:
            ops.pop(2)
        jobs.append(dict(names=[name], ext=[name.split(".")[-1]], of=[1], ops=ops, rel=rng.random() < 0.3))
    for n, j in enumerate(jobs):
        j["id"] = n + 1
    ctx.log("%d histories, %d reads" % (len(jobs), sum(1 for j in jobs for o in j["ops"] if o["op"] == "read")))
    recs = ctx.drive("reader", jobs, timeout=1500 if ctx.thorough else 500)
    recs = [r if "ev" in r else dict(id=r["id"], ext=r["ext"], of=r["of"], ev=[], err=r.get("err", "none")) for r in recs]
    ctx.samples = ["".join(jobs[k]["ops"][0]["text"]) for k in (-1, -2, -3)]
    v = ctx.judge("ReaderTrace", recs, done=True)
    controls(ctx, "ReaderTrace", [r for r in recs if r["id"] not in v], rng, corrupt_c11)
    return dict(level="model_checking", rule="histories of four events (write, open, read with and without a full shape, unsupported files) enumerated by TLC "
                "from Reader, and random files; TLC parses the text itself and follows what every reader must hold",
                assumptions=["values within about 1e-9 to 1e9; entries of one file have distinct coordinates", "comparison of a value to 1e-15 relative"])


def corrupt_c11(rng, d):
    es = [o for e in d["ev"] for o in e["seen"] if not o["none"]]
    if not es:
        return False
    o = rng.choice(es)
    k = rng.randrange(4)
    if k == 0 and len(o["idx"]) > 1 and o["val"][0] != o["val"][-1]:
        o["val"][0], o["val"][-1] = o["val"][-1], o["val"][0]
    elif k == 1:
        o["shape"][0] += 1
    elif k == 2:
        n = rng.randrange(len(o["idx"]))
        o["idx"][n][0] += 1
    else:
        n = rng.randrange(len(o["D"]["d"]))
        o["D"]["d"][n] = fxof(val(o["D"]["d"][n]) + 1)
    return True


# ---- C32 -------------------------------------------------------------------
def c32(ctx):
    rng = random.Random("C32-%s" % ctx.seed)
    jobs = []
    for n in range(400 if ctx.thorough else 140):
        kind = "cp" if n % 2 else "tucker"
        o = rng.choice([2, 3, 3, 3, 4, 4])
        N = [rng.randint(1 if rng.random() < 0.15 else 2, {2: 9, 3: 6, 4: 4}[o]) for _ in range(o)]
        if n % 5 == 4:      # a long mode, or more modes
            N = [rng.randint(2, 3) for _ in range(rng.choice([2, 3, 4, 5]))]
            o = len(N)
            if o < 5:
                N[rng.randrange(o)] = rng.randint(6, {2: 30, 3: 16, 4: 9}[o])
        lv = rng.choice([None, 0.1, 0.5, 2.0, 10.0, 1])
        j = dict(kind=kind, N=N, level=lv, seeds=[rng.randint(1, 10 ** 6) for _ in range(6)], tup=rng.random() < 0.5)
        if kind == "cp":
            j["R"] = rng.choice([1, 2, 2, 3, 4, 7])
        else:
            j["ranks"] = [rng.randint(1, max(1, q)) for q in N]
            if rng.random() < 0.2:
                j["ranks"][rng.randrange(o)] = rng.randint(1, 5)
        j["loud"] = prod(N) * 6 >= 60
        jobs.append(j)
    for n, j in enumerate(jobs):
        j["id"] = n + 1
    ctx.samples = jobs[:3]
    recs = ctx.drive("synth", jobs, timeout=1200 if ctx.thorough else 400)
    recs = [r if r.get("runs") is not None and (r["runs"] or "err" in r) else dict(r, err=r.get("err", "none")) for r in recs]
    shown = sum(1 for r in recs for q in r.get("runs", []) if "fac" in q)
    v = ctx.judge("SynthTrace", recs)
    ctx.log("%d tensors, factors seen for %d" % (sum(len(r.get("runs", [])) for r in recs), shown))
    controls(ctx, "SynthTrace", [r for r in recs if r["id"] not in v], rng, corrupt_c32, done=False)
    return dict(level="model_checking", rule="requests of order 2 to 4 with six seeds each; the same seed at noise level 0 separates the low-rank "
                "part from the noise; TLC computes the ranks of its unfoldings and the tensor its factors denote",
                assumptions=["numpy's global random state, seeded, gives both levels the same draws"], extra=dict(factors_seen=shown))


def corrupt_c32(rng, d):
    r = rng.choice(d["runs"])
    k = rng.randrange(3)
    n = rng.randrange(len(r["D0"]["d"]))
    if k == 0:
        r["D1"]["d"][n] = fxof(val(r["D0"]["d"][n]) - 0.01)
    elif k == 1:
        r["D0"]["d"][n] = fxof(val(r["D0"]["d"][n]) + 0.3)
        r["D1"]["d"][n] = fxof(val(r["D0"]["d"][n]) + 0.3)
    else:
        r["D0"]["d"][n] = fxof(-0.2)
    return True


CHECKS = {"C08": c08, "C11": c11, "C32": c32}
