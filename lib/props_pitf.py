"""Pairwise interaction tensor factorization (C25..C31, C36)."""
import random
from props_ops import prod, ints
from props_obj import controls
from props_train import fxof, val


def sizes(rng, hi=5):
    if hi == 5 and rng.random() < 0.08:     # one long mode
        n = [rng.randint(1, 4), rng.randint(1, 4), rng.randint(9, 24)]
        rng.shuffle(n)
        return n
    if rng.random() < 0.15:
        return [rng.randint(1, hi) for _ in range(3)]
    return rng.sample(range(1 if rng.random() < 0.2 else 2, hi + 2), 3)


def spl_of(rng, n, k):
    how = rng.randrange(4)
    q = [[rng.randrange(n[m]) for _ in range(k)] for m in range(3)]
    if how == 0 and k > 1:              # repeated positions
        for i in range(1, k):
            if rng.random() < 0.5:
                j = rng.randrange(i)
                for m in rng.sample(range(3), rng.choice([2, 3])):
                    q[m][i] = q[m][j]
    elif how == 1:                      # distinct positions
        cells = [(a, b, c) for a in range(n[0]) for b in range(n[1]) for c in range(n[2])]
        rng.shuffle(cells)
        cells = cells[:k]
        q = [[c[m] for c in cells] for m in range(3)]
    elif how == 2:                      # the far end of every mode
        for m in range(3):
            q[m][-1] = n[m] - 1
    return q


def distinct(rng, s):
    d = [k + 1 for k in range(prod(s))]
    rng.shuffle(d)
    return {"s": list(s), "d": [x * rng.choice([1, 1, -1]) for x in d]}


def run(ctx, jobs, corrupt, rng):
    side = random.Random("layout-%s-%s" % (ctx.prop, ctx.seed))
    for n, j in enumerate(jobs):
        j["id"] = n + 1
        if j["impl"] == "np":
            j["lay"] = side.choice(["", "", "", "F", "stride", "back", "int", "int", "ro"])
    recs = ctx.drive("pitf", jobs, timeout=1500 if ctx.thorough else 500)
    ctx.samples = jobs[:2]
    recs = [r if ("impl" in r and ("err" in r or len(r) > 6)) else dict(r, err=r.get("err", "none")) for r in recs]
    v = ctx.judge("PitfTrace", recs)
    ctx.log("%d calls" % len(recs))
    good = [r for r in recs if r["id"] not in v and not r.get("refuse")]
    controls(ctx, "PitfTrace", good, rng, corrupt, n=12, done=False)


def bump(rng, t, by=0.02):
    if not t["d"]:
        return False
    k = rng.randrange(len(t["d"]))
    t["d"][k] = fxof(val(t["d"][k]) + by * max(1.0, max(abs(val(x)) for x in t["d"])))
    return True


def base(rng, impl, hi=5):
    n = sizes(rng, hi)
    return dict(impl=impl, n=n, nf=rng.choice(["tuple", "list"] + (["const"] if impl == "tf" else [])), lf=rng.choice(["list", "np", "tensor"]),
                form=rng.choice(["const", "ph"]), refuse=False, dt="float64" if impl == "np" else rng.choice(["float32", "float32", "float64"]))


FACTORS = [1, 1, 1 / 3.0, 1e-3 / 7, 1e4 / 3, 1024, 65537]


BADSEL = [3, -1, "A", "none", 7]


def c25(ctx):
    rng = random.Random("C25-%s" % ctx.seed)
    jobs = []
    for k in range(2400 if ctx.thorough else 640):
        j = base(rng, "np" if k % 2 else "tf")
        n = j["n"]
        j.update(op="sample", spl=spl_of(rng, n, rng.choice([1, 2, 4, 8, 12]) if rng.random() < 0.88 else rng.randint(15, 40)), T=distinct(rng, n), kw=rng.random() < 0.5,
                 M=[distinct(rng, [n[0], n[1]]), distinct(rng, [n[1], n[2]]), distinct(rng, [n[2], n[0]])])
        f = rng.choice(FACTORS)
        for x in j["M"] + [j["T"]]:
            x["d"] = [v * f for v in x["d"]]
        if j["impl"] == "tf" and k % 10 == 0:
            j.update(refuse=True, sel=BADSEL[(k // 10) % 5])
        jobs.append(j)
    run(ctx, jobs, lambda rng, d: bump(rng, rng.choice([d["tensor"], d["pair"]] + d["mats"])), rng)
    return dict(level="model_checking", rule="random sizes (three different ones mostly), index lists with and without repetitions, matrices of distinct entries; both versions",
                assumptions=["single precision compared to 1e-6, double precision to 1e-11 (tensor samples exactly)"])


def c26(ctx):
    rng = random.Random("C26-%s" % ctx.seed)
    jobs = []
    for k in range(2400 if ctx.thorough else 720):
        j = base(rng, "np" if k % 2 else "tf")
        n = j["n"]
        q = spl_of(rng, n, rng.choice([1, 2, 4, 8, 14]) if rng.random() < 0.9 else rng.randint(15, 40))
        d = [x + 1 for x in range(len(q[0]))]
        rng.shuffle(d)
        f = rng.choice(FACTORS)
        j.update(op="adjoint", spl=q, vec={"s": [len(d)], "d": [x * f * rng.choice([1, -1, 0.5]) for x in d]})
        if j["impl"] == "tf" and k % 12 == 0:
            j.update(refuse=True, sel=BADSEL[(k // 12) % 5])
        jobs.append(j)
    run(ctx, jobs, lambda rng, d: bump(rng, rng.choice(d["out"])), rng)
    return dict(level="model_checking", rule="random sizes, index lists with and without repeated positions, distinct sample values; both versions",
                assumptions=["values are compared exactly"])


def matrix(rng, s):
    k = rng.randrange(6)
    r, c = s
    if k == 0:
        d = [rng.randint(-4, 4) for _ in range(r * c)]
    elif k == 1:
        u, v = [rng.randint(-3, 3) for _ in range(r)], [rng.randint(-3, 3) for _ in range(c)]
        d = [a * b for a in u for b in v]
    elif k == 2:
        d = [rng.choice([0, 0, 0, rng.randint(-9, 9)]) for _ in range(r * c)]
    elif k == 3:
        x = rng.randint(-3, 3)
        d = [x] * (r * c)
    else:
        d = [rng.randint(-400, 400) / 64.0 for _ in range(r * c)]
    return {"s": [r, c], "d": d}


def c27(ctx):
    rng = random.Random("C27-%s" % ctx.seed)
    jobs = []
    for k in range(2000 if ctx.thorough else 520):
        s = rng.choice([[rng.randint(1, 6), rng.randint(1, 6)], [rng.randint(2, 3), rng.randint(4, 7)], [rng.randint(4, 7), rng.randint(2, 3)], [4, 4]])
        if rng.random() < 0.12:
            s = rng.choice([[rng.randint(1, 3), rng.randint(9, 20)], [rng.randint(9, 20), rng.randint(1, 3)], [10, 8], [7, 9]])
        A = matrix(rng, s)
        tot = abs(sum(A["d"])) / (s[0] * s[1]) ** 0.5
        tau = rng.choice([0, 0.25, 0.5, 1, 2, 3.5, 6, 20, round(tot * 0.5 * 64) / 64.0, round(tot * 2) / 2.0])
        f = rng.choice([1, 1, 1, 1, 64, 1 / 64.0])
        A["d"], tau = [x * f for x in A["d"]], tau * f
        jobs.append(dict(impl="np" if k % 2 else "tf", op="shrink", A=A, tauv=float(tau), tau=fxof(float(tau)), tauform=rng.choice(["const", "num"]),
                         form=rng.choice(["const", "ph"]), kw=rng.random() < 0.5))
    run(ctx, jobs, lambda rng, d: bump(rng, rng.choice([d["center"], d["sv"], d["normal"], d["compl"], d["U"]])), rng)
    return dict(level="model_checking", rule="square, tall and wide matrices, rank deficient, constant and sparse ones, thresholds below and above the singular values and the entry sum; "
                "TLC verifies the returned bases (orthonormal, rotated matrix diagonal and non-negative) and rebuilds the shrunken matrix from them",
                assumptions=["TensorFlow version in float32, compared to 1e-4 of the scale; numpy to 1e-11"])


def c28(ctx):
    rng = random.Random("C28-%s" % ctx.seed)
    jobs = []
    for k in range(600 if ctx.thorough else 150):
        j = base(rng, "np" if k % 2 else "tf", 6)
        j["op"] = "factors"
        j["r"] = [rng.randint(1, 4) for _ in range(3)]
        j["seeds"] = [rng.randint(1, 10 ** 6) for _ in range(5)]
        if j["impl"] == "np":
            j["nf"] = rng.choice(["tuple", "list"])
        jobs.append(j)
    for k in range(300 if ctx.thorough else 80):
        j = base(rng, "np" if k % 2 else "tf", 5)
        j["op"] = "draw"
        j["all"] = prod(j["n"]) <= 30
        j["num"] = 40 * prod(j["n"]) if j["all"] else rng.randint(1, 50)
        j["seed"] = rng.randint(1, 10 ** 6)
        jobs.append(j)

    def corrupt(rng, d):
        if d["op"] == "draw":
            m = rng.randrange(3)
            d["spl"][m][rng.randrange(d["num"])] = rng.choice([-1, d["n"][m]])
            return True
        return bump(rng, rng.choice(d["runs"])["m"][rng.randrange(1, 3)], 0.5)
    run(ctx, jobs, corrupt, rng)
    return dict(level="model_checking", rule="random sizes and ranks, five draws each; index draws of 40 times the number of positions, all of which must occur",
                assumptions=["a position missing from 40 n1 n2 n3 draws has probability below 1e-15"])


def c31(ctx):
    rng = random.Random("C31-%s" % ctx.seed)
    triples = [([3, 4], 5), ([6, 8], 10), ([1, 2, 2], 3), ([2, 3, 6], 7), ([0, 0], 0), ([5], 5), ([0], 0), ([-3, 4], 5), ([4, 4, 7], 9)]
    jobs = []
    for k in range(3000 if ctx.thorough else 900):
        impl = "np" if k % 2 else "tf"
        q = rng.randrange(4)
        if q == 0:
            x, b = rng.choice(triples)
            t = rng.choice([b, -b, b - 1, 1 - b, b + 1, -b - 1, 0])
        elif q == 1:
            x = [0] * rng.randint(1, 4)
            t = rng.choice([0, 1, -1, 2.5, -0.25])
        else:
            x = [rng.randint(-320, 320) / 32.0 for _ in range(rng.randint(1, 6) if rng.random() < 0.85 else rng.randint(8, 40))]
            if rng.random() < 0.25:
                x = [a * 64 for a in x]
            nx = sum(a * a for a in x) ** 0.5
            t = round(rng.uniform(-1.6, 1.6) * max(nx, 1) * 64) / 64.0
            if abs(abs(t) - nx) < 1e-3 * max(1, nx):
                t = 0.0
        if isinstance(t, int) and rng.random() < 0.5:
            t = float(t)
        jobs.append(dict(impl=impl, op="cone", xv={"s": [len(x)], "d": x}, x={"s": [len(x)], "d": [fxof(float(a)) for a in x]}, tv=t, t=fxof(float(t)),
                         tauform=rng.choice(["const", "num"]), form=rng.choice(["const", "ph"])))

    def corrupt(rng, d):
        if rng.random() < 0.5:
            return bump(rng, d["ox"], 0.05)
        d["ot"] = fxof(val(d["ot"]) + 0.05)
        return True
    run(ctx, jobs, corrupt, rng)
    return dict(level="model_checking", rule="points inside, on the boundary of and outside the cone and its polar (exact boundary points with integer norms), zero vectors; both versions",
                assumptions=["TensorFlow version in float32, compared to 2e-4; numpy to 2e-11"])


# ---- C29, C30 ----------------------------------------------------------------
def run_cases(ctx, impl):
    rng = random.Random("%s-%s" % (ctx.prop, ctx.seed))
    for b, exp in [("ok", "ok"), ("redraw", "OneSample"), ("resume", "FromZero"), ("stale", "Recursion")]:
        ctx.model_check("PitfLoop", "PitfLoop-" + b, expect=exp)
    jobs = []
    for k in range((240 if impl == "np" else 120) if ctx.thorough else (72 if impl == "np" else 36)):
        n = sizes(rng, 5)
        while prod(n) < 4:
            n = sizes(rng, 5)
        X = distinct(rng, n)
        X["d"] = [abs(x) * rng.choice([1, 1]) for x in X["d"]] if rng.random() < 0.5 else X["d"]
        sgn = 0.25 if rng.random() < 0.3 else 1
        X["d"] = [x * sgn for x in X["d"]]
        a = dict(rank=rng.randint(1, 2), delt=rng.choice([0.25, 0.5, 0.8, 1.0, 1.5]), tao=rng.choice([0.0, 0.25, 1.0, 3.0, 8.0, 20.0]) * sgn,
                 sample_num=rng.choice([1, 3, 6, 10, 14] if impl == "np" else [2, 4, 6, 9, 12]))
        if impl == "tf":
            a["validation_internal"] = rng.choice([-1, -1, 1, 2, 3])
            a["verbose"] = rng.random() < 0.3
        else:
            a["validation_internal"] = rng.choice([-1, 1])
        j = dict(impl=impl, X=X, args=a, seed=rng.randint(1, 10 ** 6))
        if impl == "tf":
            j["trains"] = [rng.randint(2, 6)] + ([rng.randint(1, 5)] if rng.random() < 0.6 else [])
        else:
            j["steps"] = rng.randint(1, 7)
        if k % 6 == 4:      # more samples than entries
            while prod(n) > 30:
                n = sizes(rng, 4)
            j["X"] = distinct(rng, n)
            a["sample_num"] = prod(n) + rng.randint(1, 5)
        elif k % 6 == 5:    # a long run
            a["sample_num"], a["delt"] = rng.choice([2, 4, 6]), rng.choice([0.25, 0.5])
            if impl == "tf":
                j["trains"] = [rng.choice([9, 12, 17, 24, 33])]
            else:
                j["steps"] = rng.choice([9, 12, 17, 24, 33])
        jobs.append(j)
    for n, j in enumerate(jobs):
        j["id"] = n + 1
    ctx.samples = jobs[:2]
    raw = ctx.drive("pitfrun", jobs, timeout=1500 if ctx.thorough else 600)
    cases = []
    for r in raw:
        if "recs" in r:
            cases += r["recs"]
        else:
            cases.append(dict(id=r["id"] * 10, impl=impl, err=r.get("err", "none"), Y=[], lines=[], sums=[], steps=1))
    if impl == "np":
        for n, r in enumerate(cases):
            r["id"] = n + 1
    v = ctx.judge("PitfRunTrace", cases, done=True)
    ctx.log("%d runs, %d steps" % (len(cases), sum(len(c["Y"]) for c in cases)))
    controls(ctx, "PitfRunTrace", [r for r in cases if r["id"] not in v], rng, corrupt_run, n=12)


def corrupt_run(rng, d):
    k = rng.randrange(3)
    if k == 0 and len(d["Y"]) > 1:
        return bump(rng, d["Y"][rng.randrange(1, len(d["Y"]))], 0.02)
    if k == 1 and d["lines"]:
        q = rng.choice(d["lines"])
        f = rng.choice(["rate", "rmse"])
        q[f] = fxof(val(q[f]) * 1.05 + 0.01)
        return val(q[f]) > 0.1
    if k == 2 and "E" in d:
        q = rng.choice(["E", "R"])
        i = rng.randrange(len(d[q]))
        d[q][i] = fxof(val(d[q][i]) * 1.02 + 0.001)
        return True
    return False


def c29(ctx):
    run_cases(ctx, "np")
    return dict(level="model_checking", rule="runs of 1 to 33 iterations on data of distinct entries, all prefixes of a run made from the same random state; TLC follows the multipliers "
                "iteration by iteration, with singular bases verified before use", assumptions=["numpy's global random state, seeded, fixes the sample"])


def c30(ctx):
    run_cases(ctx, "tf")
    return dict(level="model_checking", rule="runs of 2 to 33 steps and second runs on data of distinct entries; the multipliers are read after every session run, the first ones show the "
                "sample positions, TLC follows the others", assumptions=["float32, compared to 1e-4 of the size of the multipliers"])


# ---- C36 ---------------------------------------------------------------------
def life_model(rng):
    n = sizes(rng, 4)
    while prod(n) < 4:
        n = sizes(rng, 4)
    a = dict(rank=rng.randint(1, 2), delt=rng.choice([0.25, 0.5, 0.8]), tao=rng.choice([0.0, 0.25, 1.0, 3.0]), sample_num=rng.choice([2, 3, 5, 8]),
             validation_internal=rng.choice([-1, -1, 1, 2, 3, 4, 9]), verbose=rng.random() < 0.3)
    return dict(X=distinct(rng, n), args=a)


def life_jobs(rng, n, impl):
    jobs = []
    for k in range(n):
        models = [life_model(rng) for _ in range(rng.choice([1, 2, 2]))]
        ops = []
        if impl == "np":
            for m in models:
                m["args"]["validation_internal"] = rng.choice([-1, 1])
            seeds = [rng.randint(1, 10 ** 6) for _ in range(2)]
            ops = [dict(op="train", m=rng.randint(1, len(models)), steps=rng.choice([1, 2, 3, 5, 8, 12]), seed=rng.choice(seeds)) for _ in range(rng.randint(2, 5))]
        else:
            late = len(models) == 2 and rng.random() < 0.5
            ops = [dict(op="build", m=m + 1) for m in range(1 if late else len(models))]
            for q in range(rng.randint(2, 4)):
                if q == 1 and late:
                    ops.append(dict(op="build", m=2))
                if rng.random() < 0.2:
                    ops.append(dict(op="other"))
                built = [o["m"] for o in ops if o["op"] == "build"]
                ops.append(dict(op="train", m=rng.choice(built), steps=rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 13])))
        if k % 6 == 5:      # a long run
            rng.choice([o for o in ops if o["op"] == "train"])["steps"] = rng.choice([20, 27, 40])
        jobs.append(dict(impl=impl, models=models, ops=ops, seed=rng.randint(1, 10 ** 6)))
    return jobs


def corrupt_life(rng, d):
    es = [e for e in d["ev"] if e["op"] == "train"]
    if not es:
        return False
    e = rng.choice(es)
    k = rng.randrange(6)
    a = d.get("alone", {})
    if k == 5 and a.get("Y"):
        return bump(rng, a["Y"][0], 0.02)
    if k == 5 and a.get("E"):
        a["E"][0] = fxof(val(a["E"][0]) * 1.01 + 0.01)
        return True
    if k == 0 and e["lines"]:
        e["lines"].pop(rng.randrange(len(e["lines"])))
        return True
    if k == 1 and e["lines"]:
        q = rng.choice(e["lines"])
        q["rmse"] = fxof(val(q["rmse"]) * 1.02 + 0.01)
        return True
    if k == 2 and "fin" in e:
        i = rng.randrange(len(e["fin"]))
        e["fin"][i] = not e["fin"][i]
        return True
    if k == 3 and e.get("ys") and e["ys"][-1]["d"]:
        return bump(rng, e["ys"][-1], 0.02)
    if k == 4 and e.get("sums"):
        e["sums"].append(dict(e["sums"][-1]))
        return True
    return False


def c36(ctx):
    rng = random.Random("%s-%s" % (ctx.prop, ctx.seed))
    for b, exp in [("ok", "ok"), ("forget", "ReportsRight"), ("early", "ReportsTrue"), ("silent", "FinishRight")]:
        ctx.model_check("PitfLoop", "PitfLoop-" + b, expect=exp)
    jobs = life_jobs(rng, 400 if ctx.thorough else 64, "tf") + life_jobs(rng, 300 if ctx.thorough else 60, "np")
    for n, j in enumerate(jobs):
        j["id"] = n + 1
    ctx.samples = jobs[:2]
    # the last training of every second history is also done in a process in which nothing was trained before
    alone = []
    for j in jobs[::2]:
        last = [o for o in j["ops"] if o["op"] == "train"][-1]
        alone.append(dict(j, id=j["id"] + 100000, alone=True, ops=[o for o in j["ops"] if o["op"] != "train"] + [last]))
    recs = ctx.drive("pitflife", jobs + alone, timeout=3000 if ctx.thorough else 600)
    by = {r["id"]: r for r in recs}
    recs = [r for r in recs if r["id"] < 100000]
    for r in recs:
        q = by.get(r["id"] + 100000)
        if q is not None:
            r["alone"] = q["ev"][-1] if q["ev"] else dict(op="none", m=0)
    ctx.log("%d histories, %d of them with the last training alone" % (len(recs), sum("alone" in r for r in recs)))
    v = ctx.judge("PitfLifeTrace", recs)
    controls(ctx, "PitfLifeTrace", [r for r in recs if r["id"] not in v and "err" not in r], rng, corrupt_life, n=12, done=False)
    return dict(level="model_checking", rule="histories of building one or two PITF models (and a CP model) in one graph, training them repeatedly for 1 to 40 steps with every kind of interval, "
                "and of numpy recoveries from equal and different random states; TLC judges every report with the multipliers seen after each session run",
                assumptions=["float32, rounding of the error e by cancellation allowed for", "verbose has no effect on PITF training"])


CHECKS = {"C36": c36, "C29": c29, "C30": c30, "C25": c25, "C26": c26, "C27": c27, "C28": c28, "C31": c31}
