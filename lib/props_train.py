"""Properties of the factorization models (C12..C22, C24)."""
import copy, random
from props_ops import prod


def rnd_data(rng, s, kind):
    """Data of sizes s as {"s","d"}; float values that float32 holds exactly enough."""
    n = prod(s)
    if kind in ("lowrank", "lowrank0", "collinear"):
        R = rng.randint(1, 3) if kind != "collinear" else 3
        low = 0.4 if kind == "collinear" else 0
        fs = [[[low + rng.uniform(0, 1) for _ in range(R)] for _ in range(x)] for x in s]
        d = []
        for k in range(n):
            ix, q = [], k
            for x in reversed(s):
                ix.append(q % x)
                q //= x
            ix.reverse()
            v = 0.0
            for r in range(R):
                p = 1.0
                for m, i in enumerate(ix):
                    p *= fs[m][i][r]
                v += p
            d.append(v + (rng.uniform(0, 0.1) if kind != "lowrank0" else 0))
    elif kind == "pos":
        d = [rng.uniform(0.05, 1) for _ in range(n)]
    elif kind == "signed":
        d = [rng.gauss(0.4, 0.6) for _ in range(n)]
    elif kind == "gauss":
        d = [rng.gauss(0, 1) for _ in range(n)]
    elif kind == "neg":
        d = [-rng.uniform(0.05, 1) for _ in range(n)]
    elif kind == "sparse":
        d = [0.0 if rng.random() < 0.5 else rng.uniform(0.2, 3) for _ in range(n)]
        d[rng.randrange(n)] = 1.5
    elif kind == "int":
        d = [float(rng.randint(0, 5)) for _ in range(n)]
        d[rng.randrange(n)] = 3.0
    elif kind == "slices":
        d = [rng.uniform(0.1, 1) for _ in range(n)]
        for m in range(len(s)):
            if s[m] > 1 and rng.random() < 0.6:
                z = rng.randrange(s[m])
                st = prod(s[m + 1:])
                for k in range(n):
                    if (k // st) % s[m] == z:
                        d[k] = 0.0
        if not any(d):
            d[0] = 1.0
    elif kind == "spike":
        d = [0.0] * n
        for _ in range(rng.choice([1, 1, 2, 3])):
            d[rng.randrange(n)] = rng.choice([1e-3, 1.0, 7.0, 100.0])
    else:
        raise AssertionError(kind)
    d = [round(x * 1048576) / 1048576 for x in d]
    if not any(d):
        d[0] = 1.0
    return {"s": list(s), "d": d}


def no_empty_slice(rng, X):
    """CP-ALS divides each column by its largest entry.  Zeros in the data can make that exactly zero (empty slices, or
    as many components as the data have rows), where the update is undefined; such data are not generated."""
    s, d = X["s"], X["d"]
    for m in range(len(s)):
        st = prod(s[m + 1:])
        for z in range(s[m]):
            ks = [k for k in range(len(d)) if (k // st) % s[m] == z]
            if not any(d[k] for k in ks):
                d[rng.choice(ks)] = 0.5


def cp_data(rng, X, rank):
    no_empty_slice(rng, X)
    if rank > 2 or min(X["s"]) < 3 or len(X["s"]) < 3:
        X["d"] = [x if x else rng.randint(1, 64) / 64.0 for x in X["d"]]


def distinct_shape(rng, n, hi=7, cap=220, lo=2):
    while True:
        s = rng.sample(range(lo, max(hi, lo + n) + 1), n)
        if prod(s) <= cap:
            return s


def shape(rng, cap=220, orders=(2, 3, 3, 3, 4, 4, 5)):
    n = rng.choice(orders)
    k = rng.random()
    if k < 0.1 and max(orders) > 3:      # one long mode
        while True:
            s = [rng.randint(2, 4) for _ in range(rng.choice([2, 3, 3, 4]))]
            s[rng.randrange(len(s))] = rng.choice([11, 16, 23, 32, 40])
            if prod(s) <= cap:
                return s
    if k < 0.12 and max(orders) > 4 and cap >= 130:
        return [rng.choice([2, 2, 2, 3]) for _ in range(6)]
    if rng.random() < 0.75:
        return distinct_shape(rng, n, {2: 8, 3: 7, 4: 5, 5: 6}[n], cap if n < 5 else 800)
    while True:
        s = [rng.randint(1 if rng.random() < 0.2 else 2, 5) for _ in range(n)]
        if prod(s) <= cap and prod(s) > 3:
            return s


def model_args(rng, kind, ranks, tol=-1.0):
    a = dict(tol=tol)
    if kind == "hosvd":
        return dict(ranks=ranks)
    if kind in ("cp", "ncp"):
        a["rank"] = ranks
    else:
        a["ranks"] = ranks
    k = rng.random()
    if k < 0.3:
        a["verbose"] = True
    elif k < 0.6:
        a["validation_internal"] = rng.choice([2, 3, 4])
    return a


def tucker_ranks(rng, s):
    while True:
        top = 4 if rng.random() < 0.7 else 12
        r = [rng.randint(1, min(x, top)) for x in s]
        if max(s) >= 7 and rng.random() < 0.4:      # many columns in the longest mode
            m = s.index(max(s))
            r = [rng.randint(max(1, x - 1), x) for x in s]
            r[m] = rng.randint(6, min(s[m], 12))
        if all(r[m] <= prod([r[i] for i in range(len(s)) if i != m]) for m in range(len(s))):
            return r


def prefix_ops(K, init=True):
    """Training for 1, 2, ..., K steps from the start shows every intermediate state."""
    return [["build", 0], ["train", 0, 1, {"init": init}]] + [["train", 0, k] for k in range(2, K + 1)]


def rule_job(rng, kind, thorough):
    s = shape(rng)
    K = rng.randint(2, 7)
    xk = rng.choice(["lowrank", "lowrank", "pos", "int", "sparse"])
    if kind == "cp":
        ranks = rng.choice([1, 2, 2, 3, 3, 4])
        xk = rng.choice(["lowrank", "pos", "signed", "int", "sparse", "collinear", "collinear", "gauss", "neg"])
        if xk == "collinear":
            ranks = rng.choice([3, 3, 4])
        elif len(s) >= 3 and min(s) >= 4 and rng.random() < 0.3:
            ranks = rng.choice([5, 6])
    elif kind == "ncp":
        ranks = rng.choice([1, 2, 2, 3, 4, 6, 11])
        K = rng.randint(3, 9)
    elif kind == "ntucker":
        while prod(s) > 130 or len(s) == 2 and rng.random() < 0.7:
            s = shape(rng, 130)
        ranks = [rng.randint(1, 3) for _ in s]
        if rng.random() < 0.2:
            ranks[rng.randrange(len(s))] = 4
        K = rng.randint(3, 7)
    else:
        ranks = tucker_ranks(rng, s)
        xk = rng.choice(["lowrank", "pos", "signed", "int", "sparse", "gauss", "neg"])
        if kind == "hosvd" and rng.random() < 0.3:
            ranks = [min(x, prod(s) // x) for x in s]
        K = 1 if kind == "hosvd" else rng.randint(2, 5)
    if kind != "hosvd" and rng.random() < 0.12:      # a long training
        s = shape(rng, 30, (2, 3))
        K = rng.randint(11, 20)
        if kind == "ntucker":
            ranks = [rng.randint(1, 2) for _ in s]
        elif kind == "hooi":
            ranks = tucker_ranks(rng, s)
    m = dict(kind=kind, args=model_args(rng, kind, ranks), X=rnd_data(rng, s, xk),
             xdt=rng.choice(["float32", "float64"]))
    if kind == "cp":
        cp_data(rng, m["X"], ranks)
    if kind in ("ncp", "ntucker") and rng.random() < 0.5:
        # the data are rescaled while training runs, which forces rejected steps
        m["X"] = rnd_data(rng, s, rng.choice(["pos", "lowrank"]))
        m["X"]["d"] = [max(x, 0.03125) for x in m["X"]["d"]]
        sc = [1.0] * (K + 1)
        for _ in range(rng.choice([1, 2])):
            sc[rng.randint(1, K - 1)] = rng.choice([2.0, 4.0, 0.5, 0.25])
        m["scale"] = sc
    if kind in ("cp", "ncp", "ntucker", "hooi") and rng.random() < 0.2:     # small and large units
        f = 2.0 ** rng.choice([-8, -4, 6, 10, 13])
        m["X"]["d"] = [x * f for x in m["X"]["d"]]
    return dict(models=[m], seed=rng.randint(1, 10 ** 6), want=["state"], ops=prefix_ops(K))


def vary_forms(seed, jobs):
    """Gives some models their data as an unusual array: integers, Fortran order, a strided or read-only view, big-endian."""
    rng = random.Random("forms-%s" % seed)
    for j in jobs:
        for op in j["ops"]:
            if op[0] == "predict" and rng.random() < 0.3:
                op.append("np")
        for m in j["models"]:
            if rng.random() < 0.65 or m.get("kind") == "pitf":
                continue
            whole = all(x == int(x) for x in m["X"]["d"])
            m["form"] = rng.choice(["F", "strided", "flip", "be"] + ([] if "scale" in m else ["ro", "ro"] + (["int32", "int64"] if whole else []) +
                                   (["uint8"] if whole and 0 <= min(m["X"]["d"]) and max(m["X"]["d"]) < 256 else [])))


def cumulative(sc, K):
    out, c = [], 1.0
    for k in range(K):
        if k > 0:
            c *= sc[k] if k < len(sc) else 1.0
        out.append(c)
    return out


def fxof(v):
    """A float that is a short decimal as a number of spec/FxDef.tla."""
    from fractions import Fraction
    n = Fraction(v) * 10 ** 16
    m = abs(n)
    m = (2 * m.numerator + m.denominator) // (2 * m.denominator)
    if m == 0:
        return [0]
    out = [1 if n > 0 else -1]
    while m:
        out.append(m % 10000)
        m //= 10000
    return out


def val(t):
    if t[0] == 0:
        return 0.0
    if t[0] > 1:
        return float("nan")
    n = 0
    for l in reversed(t[1:]):
        n = n * 10000 + l
    return t[0] * n / 1e16


def rule_case(job, rec, check):
    """The trace of one model: data, initial state, and what each further step showed."""
    m = rec["models"][0]
    ev = [e for e in rec["ev"] if e["op"] == "train"]
    out = dict(id=rec["id"], kind=m["kind"], X=m["X"], ranks=m["ranks"], check=check, S=[])
    for e in ev:
        out["S"].append({k: e[k] for k in ("fac", "core", "lam", "full", "err") if k in e})
    bad = [e for e in rec["ev"] if e["op"] == "build" and "err" in e]
    if bad:
        out["S"][0]["err"] = bad[0]["err"]
    for q in ("init", "core0"):
        if ev and q in ev[0]:
            out[q] = ev[0][q]
    jm = job["models"][0]
    if "scale" in jm:
        K = len(ev)
        cs = cumulative(jm["scale"], K)
        h = ev[-1].get("hist") or []
        if "cum" not in m:      # the program trains on a copy of the data and does not see the rescaling
            cs = [1.0] * K
        out["cs"] = [fxof(c) for c in cs]
    return out


def rule_check(kind, nq, nt, check="rule", gen=rule_job):
    def run(ctx):
        rng = random.Random("%s-%s" % (ctx.prop, ctx.seed))
        jobs = [gen(rng, kind if isinstance(kind, str) else rng.choice(kind), ctx.thorough)
                for _ in range(nt if ctx.thorough else nq)]
        for n, j in enumerate(jobs):
            j["id"] = n + 1
        vary_forms("%s-%s" % (ctx.prop, ctx.seed), jobs)
        recs = ctx.drive("train", jobs, timeout=1500 if ctx.thorough else 500)
        ctx.log("%d training scripts replayed" % len(recs))
        byid = {j["id"]: j for j in jobs}
        cases = [lost(byid[r["id"]], r, check) if "err" in r else rule_case(byid[r["id"]], r, check) for r in recs]
        ctx.samples = [dict(models=[dict(m, X=m["X"]["s"]) for m in j["models"]], ops=j["ops"]) for j in jobs[:3]]
        v = ctx.judge("TrainTrace", cases, done=True, timeout=2400 if ctx.thorough else 700)
        controls(ctx, [c for c in cases if c["id"] not in v], rng, check)
        return dict(level="model_checking", rule=RULE, assumptions=ASSUME,
                    extra=dict(steps=sum(len(c["S"]) for c in cases)))
    return run


def lost(job, rec, check):
    m = job["models"][0]
    return dict(id=rec["id"], kind=m["kind"], X=m["X"], ranks=[], check=check, S=[dict(err=rec["err"])])


def controls(ctx, good, rng, check):
    """Corrupts one recorded number of accepted traces; TLC has to reject them (shows that the traces bind)."""
    good = [c for c in good if len(c["S"]) > 0]
    pick = rng.sample(good, min(8, len(good)))
    bad = []
    for n, c in enumerate(pick):
        d = copy.deepcopy(c)
        d["id"] = 100000 + n
        st = d["S"][rng.randrange(len(d["S"]))]
        tgt = rng.choice([k for k in ("fac", "core", "lam") if k in st])
        t = rng.choice(st["fac"]) if tgt == "fac" else st[tgt]
        i = rng.randrange(len(t["d"]))
        t["d"][i] = fxof(-0.3 - abs(val(t["d"][i]))) if check == "nonneg" else fxof(val(t["d"][i]) * 1.3 + 0.2)
        bad.append(d)
    if not bad:
        return
    keep = (list(ctx.violations), ctx.traces, ctx.evaluations, copy.deepcopy(ctx.kinds), dict(ctx.note_counts), ctx.states, ctx.transitions)
    v = ctx.judge("TrainTrace", bad, done=True)
    (ctx.violations, ctx.traces, ctx.evaluations, ctx.kinds, ctx.note_counts, ctx.states, ctx.transitions) = keep
    rej = sum(1 for x in v.values() if any(t == "FAIL" for t, _ in x))
    ctx.controls = dict(corrupted=len(bad), rejected=rej)
    ctx.log("controls: %d corrupted traces, %d rejected" % (len(bad), rej))


def nonneg_job(rng, kind, thorough):
    s = shape(rng, orders=(2, 3, 3, 4))
    xk = rng.choice(["slices", "spike", "sparse", "lowrank", "pos", "int", "lowrank0"])
    if kind == "ncp":
        ranks = rng.choice([1, 2, 3, 6, 9])
    else:
        while prod(s) > 130:
            s = shape(rng, 130, (2, 3, 3, 4))
        ranks = [rng.randint(1, 3) if rng.random() < 0.7 else min(s[m] + 2, 5) for m in range(len(s))]
    m = dict(kind=kind, args=model_args(rng, kind, ranks), X=rnd_data(rng, s, xk), xdt="float64")
    if rng.random() < 0.2:
        f = rng.choice([1e-3, 1e3])
        m["X"]["d"] = [x * f for x in m["X"]["d"]]
    if rng.random() < 0.4:
        sc = [1.0] * 12
        for _ in range(3):
            sc[rng.randint(1, 8)] = rng.choice([4.0, 16.0, 0.0625, 0.25])
        m["scale"] = sc
    ks = sorted(rng.sample(range(1, 40 if thorough else 25), 5))
    ops = [["build", 0]] + [["train", 0, k] for k in ks]
    return dict(models=[m], seed=rng.randint(1, 10 ** 6), want=["state"], ops=ops)


RULE = ("training scripts from a seeded generator (orders 2-5, distinct and repeated sizes, several data kinds, options and "
        "ranks); the real models are trained for 1..K steps, so every intermediate state is public; TLC replays the specified "
        "algorithm along the recorded states. Steps the specification cannot judge (ill-conditioned, borderline acceptance) "
        "are counted as skipped or as notes.")
ASSUME = ["training for k steps shows the state after k steps of a longer training (property C21)",
          "rounding allowances: a few float32 units, scaled with the conditioning computed by the specification"]

CHECKS = {
    "C12": rule_check("cp", 120, 700),
    "C13": rule_check("ncp", 110, 600),
    "C14": rule_check("ntucker", 110, 400),
    "C15": rule_check("hosvd", 110, 800),
    "C16": rule_check("hooi", 120, 600),
    "C17": rule_check(("ncp", "ntucker"), 100, 700, check="nonneg", gen=nonneg_job),
}
