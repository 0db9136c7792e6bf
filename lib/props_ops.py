"""Properties of the tensor operations, losses, Kruskal/Tucker tensors (C01..C07, C09, C10)."""
import random

SMALL = ["float32", "float64", "int32", "int64"]
MOVE = SMALL + ["int16", "uint8", "int8", "float16"]


def prod(s):
    r = 1
    for x in s:
        r *= x
    return r


def rshape(rng, lo=1, hi=6, cap=600, big=True):
    """A random shape: mixed, all-equal, with ones, or with one large mode."""
    while True:
        n = rng.randint(lo, hi)
        if hi >= 5 and rng.random() < 0.06:     # many modes
            n = rng.randint(hi + 1, 11)
            s = [rng.choice([1, 1, 2, 2, 2, 3]) for _ in range(n)]
            if prod(s) <= max(cap, 512):
                return s
            continue
        if hi >= 5 and rng.random() < 0.03:     # many elements
            n = rng.randint(lo, min(hi, 4))
            s = [rng.randint(2, 40) for _ in range(n)]
            if 600 < prod(s) <= 3000:
                return s
            continue
        kind = rng.random()
        if kind < 0.2:
            s = [rng.randint(1, 5)] * n
        elif kind < 0.4:
            s = [rng.choice([1, 1, 2, 3, 4]) for _ in range(n)]
        elif kind < 0.6 and big:
            s = [rng.randint(1, 3) for _ in range(n)]
            s[rng.randrange(n)] = rng.choice([17, 33, 40, 64, 65, 101, 130])
        else:
            s = [rng.randint(1, 8 if n < 5 else 4) for _ in range(n)]
        if prod(s) <= cap:
            return s


def arange(s, dt="float32", rng=None):
    """Distinct values (as far as the type allows), so that a position is identified by its value."""
    n = prod(s)
    lim = {"uint8": 250, "int8": 120, "float16": 2000}.get(dt, 10 ** 6)
    d = [i % lim for i in range(n)]
    if rng is not None:
        off = 0 if dt == "uint8" else rng.choice([0, -(n // 2), 1])
        if lim < 10 ** 6:
            off = 0
        d = [x + off for x in d]
        if rng.random() < 0.5:
            rng.shuffle(d)
        if dt in WIDE and rng.random() < 0.4:
            # values that single precision cannot hold
            big = rng.choice([2 ** 24 + 1, 10 ** 9 + 7, 2 ** 31 - 1 - 2 * n])
            d = [x - min(d) + big if x % 3 else -(x - min(d) + big) for x in d]
    return {"s": list(s), "d": d}


# element types whose values the specification sees as codes (drv/ops.py: element)
CODED = ["complex64", "complex128", "bool", "string", "uint16", "uint32", "uint64", "float16", "float32", "float64", "int64"]


def coded(rng, jobs, n):
    """Copies of some of the calls on elements of any type, special values included."""
    out = []
    for j in rng.sample(jobs, min(n, len(jobs))):
        j = dict(j, dt=rng.choice(CODED), coded=True)
        if j["dt"] == "string" and max(len(j[k]["s"]) for k in ("T", "M") if k in j) > 6 or len(j.get("s", [])) > 6:
            j["dt"] = "complex64"     # TensorFlow itself aborts on transposing strings of more than eight modes
        for k in ("T", "M"):
            if k in j:
                m = len(j[k]["d"])
                d = list(range(m))
                if rng.random() < 0.5:
                    rng.shuffle(d)
                if j["dt"] == "bool":
                    d = [rng.randint(0, 1) for _ in range(m)]
                j[k] = dict(j[k], d=d)
        out.append(j)
    return out


def ints(rng, s, lo=-5, hi=5, zeros=0.1):
    return {"s": list(s), "d": [0 if rng.random() < zeros else rng.randint(lo, hi) for _ in range(prod(s))]}


WIDE = ("float64", "int32", "int64")


def enlarge(rng, j, fields, factors, terms):
    """Some calls on wide types get entries beyond single precision: sums of `terms` products of `factors` entries stay below 2^30."""
    if j["dt"] not in WIDE or rng.random() > 0.3:
        return j
    m = int((2.0 ** 30 / max(1, terms)) ** (1.0 / max(1, factors)))
    if m < 9:
        return j
    f = lambda t: dict(t, d=[0 if x == 0 else rng.choice([-1, 1]) * rng.randint(max(1, m // 2), m) for x in t["d"]])
    for k in fields:
        if k in j:
            j[k] = [f(t) for t in j[k]] if isinstance(j[k], list) else f(j[k])
    return j


def alias(rng, jobs, share=0.25):
    """Copies of some of the calls in which operands of one shape are equal, and handed over as one and the same object."""
    out = []
    for j in jobs:
        if rng.random() > share or j.get("coded"):
            continue
        j = dict(j, alias=True)
        n = 0
        for k in ("ms", "Us"):
            if len(j.get(k, [])) > 1:
                first = {}
                new = []
                for m in j[k]:
                    q = tuple(m["s"])
                    if q in first and (m is j[k][-1] or rng.random() < 0.8):
                        new.append(first[q])
                        n += 1
                    else:
                        first[q] = m
                        new.append(m)
                j[k] = new
        if j["op"] in ("inner", "l2", "rmse", "rmsez"):
            j["B"] = j["A"]
            n += 1
        if j["op"] == "mul":
            # the tensor with itself, contracted with equal or permuted modes of one size
            s = j["A"]["s"]
            p = rng.sample(range(len(s)), rng.randint(1, len(s)))
            q = list(p)
            if rng.random() < 0.5:
                rng.shuffle(q)
            if all(s[x] == s[y] for x, y in zip(p, q)) and prod(s) ** 2 // prod([s[x] for x in p]) ** 2 <= 900 \
                    and max(map(abs, j["A"]["d"])) ** 2 * prod([s[x] for x in p]) < 2 ** 30:
                f = lambda x: rng.choice(["int", "list", "tuple"]) if len(x) == 1 else rng.choice(["list", "tuple"])
                pf = f(p)
                j.update(B=j["A"], p=p, q=q, pf=pf, qf=pf if p == q else f(q))
                n += 1
        if j["op"] == "xcb" and j["B"]["s"] == j["C"]["s"]:
            j["C"] = j["B"]
            n += 1
        if n:
            out.append(j)
    return out


def form(rng):
    return "ph" if rng.random() < 0.3 else "const"


# ---- C01 -------------------------------------------------------------------
def jobs_c01(ctx, rng):
    jobs = []
    for g in ctx.generate("OpsGen", env=dict(KIND="unfold", BOUND="big" if ctx.thorough else "small")):
        dt = rng.choice(SMALL)
        jobs.append(dict(op="unfold", dt=dt, form=form(rng), T=arange(g["s"], dt, rng), mode=g["mode"], deflt=g["deflt"]))
    for _ in range(1500 if ctx.thorough else 250):
        s = rshape(rng, 1, 8)
        dt = rng.choice(MOVE)
        jobs.append(dict(op="unfold", dt=dt, form=form(rng), T=arange(s, dt, rng), mode=rng.randrange(len(s)), deflt=False))
    return jobs + coded(rng, jobs, 900 if ctx.thorough else 200)


# ---- C02 -------------------------------------------------------------------
def jobs_c02(ctx, rng):
    jobs = []
    for g in ctx.generate("OpsGen", env=dict(KIND="fold", BOUND="big" if ctx.thorough else "small")):
        jobs.append(fold_job(rng, g["op"], g["s"], g.get("mode", 0), g.get("tup", rng.random() < 0.5), rng.choice(SMALL)))
    for _ in range(1500 if ctx.thorough else 250):
        s = rshape(rng, 1, 8)
        jobs.append(fold_job(rng, rng.choice(["fold", "fold", "fold", "vectorize", "vec2t"]), s,
                             rng.randrange(len(s)), rng.random() < 0.5, rng.choice(MOVE)))
    return jobs + coded(rng, jobs, 900 if ctx.thorough else 200)


def fold_job(rng, op, s, mode, tup, dt):
    if op == "fold":
        return dict(op="fold", dt=dt, form=form(rng), mode=mode, s=list(s), tup=tup,
                    M=arange([s[mode], prod(s) // s[mode]], dt, rng))
    return dict(op=op, dt=dt, form=form(rng), s=list(s), tup=tup, T=arange(s, dt, rng))


# ---- C03 -------------------------------------------------------------------
def axform(rng, q):
    return "int" if len(q) == 1 and rng.random() < 0.6 else "list"


def jobs_c03(ctx, rng):
    jobs = []

    def job(s, r, c, cinf, dt):
        return dict(op="t2mat", dt=dt, form=form(rng), T=arange(s, dt, rng), r=r, c=c, cinf=cinf,
                    rf=axform(rng, r), cf=axform(rng, c))
    gen = ctx.generate("OpsGen", env=dict(KIND="t2mat", BOUND="big" if ctx.thorough else "small"))
    if ctx.thorough:
        gen = [g for g in gen if len(g["s"]) < 4] + rng.sample([g for g in gen if len(g["s"]) == 4], 6000)
    for g in gen:
        # both argument forms whenever a side has one axis
        j = job(g["s"], g["r"], g["c"], g["cinf"], rng.choice(SMALL))
        jobs.append(j)
        if len(g["r"]) == 1 and (g["cinf"] or len(g["c"]) == 1):
            for rf in ("int", "list"):
                for cf in (("int", "list") if not g["cinf"] else ("list",)):
                    jobs.append(dict(j, rf=rf, cf=cf))
    for _ in range(1500 if ctx.thorough else 250):
        s = rshape(rng, 1, 7)
        q = list(range(len(s)))
        rng.shuffle(q)
        k = rng.randint(0, len(s))
        cinf = rng.random() < 0.4
        if k == len(s) and rng.random() < 0.5:
            cinf = True
        jobs.append(job(s, q[:k], [] if cinf else q[k:], cinf, rng.choice(MOVE)))
    return jobs + coded(rng, jobs, 900 if ctx.thorough else 200)


# ---- C04 -------------------------------------------------------------------
def jobs_c04(ctx, rng):
    jobs = []

    def job(a, b, p, q, dt):
        f = lambda x: rng.choice(["int", "list", "tuple"]) if len(x) == 1 else rng.choice(["list", "tuple"])
        return enlarge(rng, dict(op="mul", dt=dt, form=form(rng), A=ints(rng, a), B=ints(rng, b), p=p, q=q, pf=f(p), qf=f(q)),
                       ("A", "B"), 2, prod([a[i] for i in p]))
    gen = ctx.generate("OpsGen", env=dict(KIND="mul", BOUND="big" if ctx.thorough else "small"))
    if ctx.thorough and len(gen) > 6000:
        gen = rng.sample(gen, 6000)
    for g in gen:
        jobs.append(job(g["a"], g["b"], g["p"], g["q"], rng.choice(SMALL)))
    n = 1000 if ctx.thorough else 250
    while n > 0:
        a = rshape(rng, 1, 5, 300)
        k = rng.randint(0, min(len(a), 4))
        p = rng.sample(range(len(a)), k)
        nb = rng.randint(max(1, k), max(1, k) + 2)
        q = rng.sample(range(nb), k)
        b = [rng.randint(1, 4) for _ in range(nb)]
        for x, y in zip(p, q):
            b[y] = a[x]
        out = prod([a[i] for i in range(len(a)) if i not in p]) * prod([b[i] for i in range(nb) if i not in q])
        if prod(b) > 400 or out > 600 or out * prod([a[i] for i in p]) > 8000:
            continue
        jobs.append(job(a, b, p, q, rng.choice(SMALL)))
        n -= 1
    return jobs


# ---- C05 -------------------------------------------------------------------
def jobs_c05(ctx, rng):
    jobs = []

    def mat(s, mode, tr, rows):
        sh = [s[mode], rows] if tr else [rows, s[mode]]
        return ints(rng, sh, -4, 4)

    def rows():
        return rng.choice([1, 2, 3, 4, 5])

    def job(s, how, axis, tr, dt):
        if how == "axis":
            ms = [mat(s, m, tr, rows()) for m in axis]
        elif how == "default":
            ms = [mat(s, m, tr, rows()) for m in range(axis[0])]
        else:
            # fewer matrices than modes: the last modes have none
            k = len(s) if rng.random() < 0.7 else rng.randint(max(axis, default=-1) + 1, len(s))
            ms = [mat(s, m, tr, rows()) for m in range(max(k, 1))]
            if len(axis) == len(ms):
                ms = [mat(s, m, tr, rows()) for m in range(len(s))]
        j = dict(op="ttm", dt=dt, form=form(rng), T=ints(rng, s, -4, 4), ms=ms, how=how, axis=axis, tr=tr,
                 axf=axform(rng, axis), trexp=rng.random() < 0.5)
        if len(ms) == 1 and rng.random() < 0.3 and how != "skip":
            j["bare"] = True
        return enlarge(rng, j, ("T", "ms"), len(ms) + 1, prod(s))
    gen = ctx.generate("OpsGen", env=dict(KIND="ttm", BOUND="big" if ctx.thorough else "small"))
    if ctx.thorough and len(gen) > 6000:
        gen = rng.sample(gen, 6000)
    for g in gen:
        jobs.append(job(g["s"], g["how"], g["axis"], g["tr"], rng.choice(SMALL)))
    for _ in range(1200 if ctx.thorough else 220):
        s = rshape(rng, 1, 7, 300)
        n = len(s)
        how = rng.choice(["axis", "axis", "skip", "skip", "default"])
        if how == "axis":
            axis = rng.sample(range(n), rng.randint(1, n))
        elif how == "skip":
            axis = sorted(rng.sample(range(n), rng.randint(0, n - 1)))
            if rng.random() < 0.4:
                rng.shuffle(axis)
        else:
            axis = [rng.randint(1, n)]
        jobs.append(job(s, how, axis, rng.random() < 0.5, rng.choice(SMALL)))
    for _ in range(40):
        s = rshape(rng, 2, 5, 200)
        k = rng.sample(range(len(s)), rng.randint(1, len(s) - 1))
        a = rng.sample(range(len(s)), rng.randint(0, len(s)))
        jobs.append(dict(op="ttm_both", dt="float32", form="const", T=ints(rng, s),
                         ms=[mat(s, m, False, 2) for m in range(len(s))], axis=a, skip=k,
                         axf=axform(rng, k), tr=rng.random() < 0.3))
        jobs.append(dict(jobs[-1], skip=[], axf="list"))
        jobs.append(dict(jobs[-1], axis=[], skip=[0], axf="int"))
    return jobs


# ---- C06 -------------------------------------------------------------------
def jobs_c06(ctx, rng):
    jobs = []

    def job(op, ms, skip, rev, dt):
        v = 1 if len(ms) > 7 else 2 if len(ms) > 5 else 4
        return enlarge(rng, dict(op=op, dt=dt, form=form(rng), ms=[ints(rng, m, -v, v, 0.05) for m in ms], skip=skip, rev=rev,
                                 axf=axform(rng, skip), skipexp=rng.random() < 0.3, revexp=(op != "hadamard" and rng.random() < 0.5)),
                       ("ms",), len(ms) - len(skip), 1)
    for g in ctx.generate("OpsGen", env=dict(KIND="lists", BOUND="big" if ctx.thorough else "small")):
        jobs.append(job(g["op"], g["ms"], g["skip"], g["rev"], rng.choice(SMALL)))
    n = 900 if ctx.thorough else 200
    while n:
        op = rng.choice(["kron", "khatri", "hadamard"])
        L = rng.randint(1, 7 if op != "kron" else 6)
        if rng.random() < 0.06:
            L = rng.randint(8, 11)
        if op == "kron":
            ms = [[rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 2, 3])] for _ in range(L)]
        elif op == "khatri":
            c = rng.choice([1, 1, 2, 3, 4, 5])
            ms = [[rng.choice([1, 2, 2, 3, 4, 6]), c] for _ in range(L)]
        else:
            sh = [rng.randint(1, 6), rng.randint(1, 6)]
            ms = [sh] * L
        if L > 7 and op != "hadamard":
            ms = [[rng.choice([1, 1, 2]), rng.choice([1, 1, 1, 2]) if op == "kron" else m[1]] for m in ms]
        skip = sorted(rng.sample(range(L), rng.choice([0, 0, 1, 1, 2])) if L > 2 else (rng.sample(range(L), 1) if L == 2 and rng.random() < 0.5 else []))
        if rng.random() < 0.3:
            rng.shuffle(skip)
        rest = [m for i, m in enumerate(ms) if i not in skip]
        if prod([m[0] for m in rest]) * (prod([m[1] for m in rest]) if op == "kron" else rest[0][1]) > 1500:
            continue
        jobs.append(job(op, ms, skip, op != "hadamard" and rng.random() < 0.5, rng.choice(SMALL)))
        n -= 1
    return jobs


# ---- C07 -------------------------------------------------------------------
def jobs_c07(ctx, rng):
    jobs = []
    n = 1500 if ctx.thorough else 350
    for i in range(n):
        op = ["inner", "l2", "rmse", "rmsez"][i % 4]
        dt = rng.choice(["float32", "float64"])
        s = rshape(rng, 1, 5, 250)
        zeros = rng.choice([0.0, 0.3, 0.7, 0.95])
        if rng.random() < 0.6:
            val = lambda: 0 if rng.random() < zeros else rng.randint(-9, 9)
        else:
            val = lambda: 0 if rng.random() < zeros else rng.uniform(-3, 3)
        A = {"s": s, "d": [val() for _ in range(prod(s))]}
        k = rng.random()
        if k < 0.1:
            B = {"s": s, "d": list(A["d"])}
        elif k < 0.3:
            B = {"s": s, "d": [x + rng.choice([0, 1]) for x in A["d"]]}
        else:
            B = {"s": s, "d": [val() for _ in range(prod(s))]}
        if k > 0.85 and op != "l2":
            # a different shape: same number of elements, broadcastable, or plainly different
            t = rng.random()
            if t < 0.4 and len(s) > 1:
                s2 = s[::-1]
            elif t < 0.7:
                s2 = [1] * len(s)
            elif t < 0.8:
                s2 = [1] + s
            elif t < 0.9:
                s2 = [x if i else 1 for i, x in enumerate(s)]
            else:
                s2 = [prod(s)]
            B = {"s": s2, "d": [val() for _ in range(prod(s2))]}
        if k < 0.04:
            # large magnitudes in float64
            dt = "float64"
            A = {"s": s, "d": [x * 1000 for x in A["d"]]}
        tol = 1e-12 if dt == "float64" else 3e-6
        if op == "rmsez" and B["s"] == s and 0 in A["d"] and rng.random() < 0.25:
            # anything at all where the reference is zero
            odd = rng.choice([[1e30], [float("inf")], [float("nan")], [float("-inf"), float("nan"), 1e20, -3e35]])
            B = {"s": s, "d": [rng.choice(odd) if x == 0 and rng.random() < 0.6 else y for x, y in zip(A["d"], B["d"])]}
        jobs.append(dict(op=op, dt=dt, form=form(rng), A=A, B=B, tol=tol))
        if op in ("inner", "rmse") and rng.random() < 0.15:
            jobs.append(dict(jobs[-1], dt="int32" if op == "inner" else "float32", tol=3e-6,
                             A=ints(rng, s), B=ints(rng, s)))
    return jobs


# ---- C09 -------------------------------------------------------------------
def jobs_c09(ctx, rng):
    jobs = []

    def common_bits(j, kt):
        j["npf"] = rng.random() < 0.5
        j["twice"] = rng.random() < 0.2
        if kt:
            k = rng.random()
            if k < 0.7:
                R = j["Us"][0]["s"][1]
                j["w"] = [rng.randint(-3, 4) for _ in range(R)]
                j["wcol"] = rng.random() < 0.5
                j["wnp"] = rng.random() < 0.5
        else:
            j["npg"] = rng.random() < 0.5
        return j
    n = 1500 if ctx.thorough else 350
    while n:
        kt = rng.random() < 0.5
        s = rshape(rng, 1, 6, 250)
        dt = rng.choice(["float32", "float64"])
        if kt:
            R = rng.choice([1, 2, 3, 4, 7])
            j = dict(op="ktensor", Us=[ints(rng, [x, R], -3, 3) for x in s])
        else:
            g = [rng.choice([1, 2, 3, x, x + 1]) for x in s]
            if prod(g) > 250 or prod([max(a, b) for a, b in zip(g, s)]) > 600:
                continue
            j = dict(op="ttensor", G=ints(rng, g, -3, 3), Us=[ints(rng, [x, y], -3, 3) for x, y in zip(s, g)])
        j.update(dt=dt, form=form(rng))
        j = common_bits(j, kt)
        if not (kt and j["npf"]):
            j = enlarge(rng, j, ("G", "Us"), len(j["Us"]) + 1, 4 * R if kt else prod(g))
        if rng.random() < 0.25 and prod(s) <= 100:
            # real-valued factors
            j["op"] += "f"
            j["tol"] = 1e-5 if dt == "float32" or (kt and j["npf"]) else 1e-12
            for m in j["Us"] + ([j["G"]] if not kt else []):
                m["d"] = [rng.uniform(-1, 1) for _ in m["d"]]
            if "w" in j:
                j["w"] = [rng.uniform(-2, 2) for _ in j["w"]]
        jobs.append(j)
        n -= 1
    return jobs


# ---- C10 -------------------------------------------------------------------
def jobs_c10(ctx, rng):
    jobs = []
    for _ in range(600 if ctx.thorough else 160):
        s = [rng.choice([1, 2, 3, 4, 5]) for _ in range(3)]
        R = rng.choice([1, 2, 3, 4])
        jobs.append(enlarge(rng, dict(op="xcb", dt=rng.choice(["float32", "float64", "int32"]), form=form(rng), X=ints(rng, s, -4, 4, rng.choice([0, 0.4, 0.8])),
                                      C=ints(rng, [s[2], R], -4, 4), B=ints(rng, [s[1], R], -4, 4)), ("X", "B", "C"), 3, s[1] * s[2]))
    for _ in range(400 if ctx.thorough else 120):
        L = rng.randint(1, 5) if rng.random() < 0.9 else rng.randint(6, 9)
        dt = rng.choice(["float32", "float64"])
        ms = []
        for _ in range(L):
            sh = [rng.choice([1, 2, 3, 4, 6]), rng.choice([1, 2, 3, 4])]
            m = ints(rng, sh, -3, 3, rng.choice([0, 0.3]))
            if rng.random() < 0.5:
                m["d"] = [x + rng.uniform(-1, 1) for x in m["d"]]
            ms.append(m)
        skip = rng.sample(range(L), rng.randint(0, L - 1))
        if L > 1 and rng.random() < 0.4:
            skip = [rng.randrange(L)]
        jobs.append(dict(op="msv", dt=dt, form=form(rng), ms=ms, skip=skip, axf=axform(rng, skip),
                         skipexp=rng.random() < 0.3, rev=False, tol=1e-4 if dt == "float32" else 1e-6))
    return jobs


RULE = ("TLC enumerates the small-scope calls (spec/OpsGen.tla) and a seeded generator adds larger ones; every call is "
        "replayed on the real code and its recorded result judged by TLC (spec/OpsTrace.tla). A case is non-trivial "
        "unless the property says nothing about it (judged 'skip').")


LAWS = {"C01": ["places"], "C02": ["places"], "C03": ["places"], "C04": ["pair", "product"], "C05": ["product"], "C06": ["lists"],
        "C07": ["pair"], "C09": ["tucker", "kruskal"], "C10": ["kruskal"]}


def make(fn):
    def run(ctx):
        for law in LAWS[ctx.prop]:
            ctx.model_check("AlgLaws", "AlgLaws-%s%s" % (law, "-big" if ctx.thorough else ""),
                            note="identities of the algebra the answers are judged with, on all tensors with one entry (the laws are linear in each argument)")
        if "tucker" in LAWS[ctx.prop]:
            ctx.model_check("AlgLaws", "AlgLaws-ascending", expect="Ascending", note="refuted: Kronecker product in increasing order")
        rng = random.Random("%s-%s" % (ctx.prop, ctx.seed))
        jobs = fn(ctx, rng)
        jobs += alias(random.Random("alias-%s-%s" % (ctx.prop, ctx.seed)), jobs)
        rng.shuffle(jobs)
        for n, j in enumerate(jobs):
            j["id"] = n + 1
        ctx.log("%d calls" % len(jobs))
        recs = ctx.drive("ops", jobs)
        ctx.log("replayed")
        ctx.samples = jobs[:3]
        ctx.judge("OpsTrace", recs)
        return dict(level="model_checking", rule=RULE,
                    assumptions=["static shapes; results of float types compared exactly on integer-valued data"])
    return run


CHECKS = {"C01": make(jobs_c01), "C02": make(jobs_c02), "C03": make(jobs_c03), "C04": make(jobs_c04),
          "C05": make(jobs_c05), "C06": make(jobs_c06), "C07": make(jobs_c07), "C09": make(jobs_c09),
          "C10": make(jobs_c10)}
