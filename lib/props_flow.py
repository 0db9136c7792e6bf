"""Where data come from and how good the fits are (C33, C34)."""
import copy, random
from props_ops import prod
from props_obj import controls
from props_script import small, KINDS
from props_train import tucker_ranks, fxof, val, rnd_data, cp_data


# ---- C33 -------------------------------------------------------------------
def flow_data(rng, s, whole, zeros):
    n = prod(s)
    if whole:
        d = [float(rng.randint(1, 9)) for _ in range(n)]
    else:
        d = [rng.randint(1, 128) / 64.0 for _ in range(n)]
    if zeros:
        d = [0.0 if rng.random() < 0.3 else x for x in d]
        d[rng.randrange(n)] = 2.0
    return {"s": list(s), "d": d}


def flow_args(rng, kind, s):
    if kind in ("cp", "ncp"):
        a = dict(rank=rng.choice([1, 2, 2]))
    elif kind in ("hosvd", "hooi") and all(s[m] <= prod(s) // s[m] for m in range(len(s))) and rng.random() < 0.8:
        a = dict(ranks=list(s))
    else:
        a = dict(ranks=tucker_ranks(rng, s))
    if kind != "hosvd":
        a.update(tol=rng.choice([-1.0, 1e-4]), validation_internal=rng.choice([-1, 1, 2, 5]), verbose=rng.random() < 0.2)
    return a


WHOLE = ["int64", "int32", "uint8", "int16"]
FORMS = [None, "F", "uint8", "strided", "int64", "flip", "be", "int32", "ro", "float16", "int16"]


def flow_job(rng, g, n):
    kinds = [KINDS[n % 5], rng.choice(KINDS)]
    if n % 3 == 0:
        kinds = [rng.choice(["hosvd", "hooi"])] * 2
    pform = [rng.choice(["attr", "attr", "sub", "fresh", "reader"]) for _ in range(2)]
    versions, xform = [], []
    for p in range(2):
        if p == g["prov"][0] - 1:
            xf = FORMS[n // 5 % len(FORMS)]         # every kind meets every form of array
            pform[p] = "attr" if xf in WHOLE else pform[p]
        else:
            xf = rng.choice(FORMS)
        whole = xf in WHOLE or rng.random() < 0.2
        zeros = "cp" not in kinds and rng.random() < 0.5
        s0 = small(rng, 40)
        vs = []
        for v in range(3):
            s = s0 if v == 0 or rng.random() < 0.6 else small(rng, 40)
            vs.append(dict(flow_data(rng, s, whole, zeros), dt=rng.choice(["float32", "float64"]) if xf != "be" else "float64"))
        versions.append(vs)
        xform.append(xf)
    args = [[flow_args(rng, kinds[m], versions[g["prov"][m] - 1][v]["s"]) for v in range(3)] for m in range(2)]
    return dict(prov=g["prov"], ops=g["log"], kinds=kinds, pform=pform, xform=xform, versions=versions, args=args,
                steps=rng.randint(1, 4), sharedenv=rng.random() < 0.5, remake=rng.random() < 0.4, graphs=rng.choice(["one", "new", "new"]))


def corrupt_c33(rng, d):
    k = rng.randrange(3)
    ts = [e for e in d["ev"] if e["op"] == "train" and "full" in e]
    asks = [e for e in d["ev"] if e["op"] == "ask" and "data" in e]
    if k == 0 and asks:
        e = rng.choice(asks)
        q = rng.randrange(len(e["data"]["d"]))
        e["data"]["d"][q] = fxof(val(e["data"]["d"][q]) + 1 / 64)
    elif k == 1 and asks:
        rng.choice(asks)["shape"][0] += 1
    else:
        # as if it had been built on other data
        m = ts[0]["m"]
        d["data"][d["prov"][m - 1] - 1] = [dict(t, d=[fxof(val(x) * 1.25) for x in t["d"]]) for t in d["data"][d["prov"][m - 1] - 1]]
        for e in asks:
            if d["prov"][e["m"] - 1] == d["prov"][m - 1]:
                return True
        if d["kinds"][m - 1] == "hosvd":
            d["kinds"][m - 1] = "hooi"
    return True


def c33(ctx):
    rng = random.Random("C33-%s" % ctx.seed)
    for cfg, exp in [("DataFlow-ok", "ok"), ("DataFlow-first", "AnswersNow"), ("DataFlow-class", "Untouched"),
                     ("DataFlow-stale", "OwnData"), ("DataFlow-late", "OwnData")]:
        ctx.model_check("DataFlow", cfg, expect=exp)
    gen = ctx.generate("DataFlowGen", "DataFlowGen", workers=1)
    rich = [g for g in gen if sum(1 for o in g["log"] if o[0] == "train") >= 2]
    jobs = [flow_job(rng, rng.choice(rich if n % 2 else gen), n) for n in range(900 if ctx.thorough else 180)]
    for n, j in enumerate(jobs):
        j["id"] = n + 1
    ctx.samples = [dict(j, versions=[[t["s"] for t in q] for q in j["versions"]]) for j in jobs[:3]]
    recs = ctx.drive("dataflow", jobs, timeout=2400 if ctx.thorough else 500)
    recs = [r if "ev" in r else dict(id=r["id"], err=r.get("err", "none"), prov=jobs[r["id"] - 1]["prov"], ev=[]) for r in recs]
    for r in recs:
        for e in r["ev"]:
            e.pop("msg", None)
    v = ctx.judge("DataFlowTrace", recs, done=True)
    controls(ctx, "DataFlowTrace", [r for r in recs if r["id"] not in v], rng, corrupt_c33)
    return dict(level="model_checking", rule="histories (6 events, from %d generated by TLC) of data being exchanged, environments being asked, models built "
                "and trained; providers as in the documentation, as subclasses, handing out copies, and reading files; one graph or a graph per model; "
                "TLC follows each history with the actions of DataFlow" % len(gen),
                assumptions=["data are short binary fractions, so that single precision holds them"])


# ---- C34, C35 ---------------------------------------------------------------
def sizes(rng):
    while True:
        s = [rng.randint(1 if rng.random() < 0.1 else 2, 6) for _ in range(rng.choice([2, 3, 3, 3, 4]))]
        if 4 <= prod(s) <= 72:
            return s


def spread(rng, s):
    """Data whose unfoldings have well separated singular values."""
    X = rnd_data(rng, s, "lowrank")
    X["d"] = [x + rng.gauss(0, 0.3) for x in X["d"]]
    return X


def bounds_job(rng, n):
    s = sizes(rng)
    X = rnd_data(rng, s, rng.choice(["pos", "signed", "sparse", "int", "lowrank", "slices", "spike", "collinear"])) if rng.random() < 0.7 else spread(rng, s)
    if rng.random() < 0.15:
        f = rng.choice([0.001, 1000.0])
        X["d"] = [x * f for x in X["d"]]
    r = tucker_ranks(rng, s)
    r2 = [rng.randint(k, min(x, prod(s) // x)) if rng.random() < 0.7 else k for k, x in zip(r, s)]
    ks = rng.choice([2, 3, 4, 6, 10])
    Y = copy.deepcopy(X)
    rank = rng.choice([1, 2, 2, 3])
    cp_data(rng, Y, rank)
    ms = [dict(kind="hosvd", args=dict(ranks=r)), dict(kind="hosvd", args=dict(ranks=r2)),
          dict(kind="hooi", args=dict(ranks=r, tol=-1.0))]
    if n % 2:
        ms = [dict(kind="cp", args=dict(rank=rank, tol=-1.0))] * 2
        ks = rng.choice([6, 12, 20, 30])
        X = Y
    models = [dict(m, X=X, xdt="float64", graph=k) for k, m in enumerate(ms)]
    ops = [["build", k] for k in range(len(ms))] + [["train", k, 1 if m["kind"] == "hosvd" else ks] for k, m in enumerate(ms)]
    if n % 2:
        ops[-1][2] = 3
    return dict(models=models, seed=rng.randint(1, 10 ** 6), want=["state", "steps"] + (["facs"] if n % 2 else []), ops=ops, check="bounds")


def follow_job(rng, n):
    kind = KINDS[n % 5]
    while True:
        s = sizes(rng)
        if kind != "ntucker" or prod(s) <= 48:
            break
    if kind in ("hosvd", "hooi"):
        X = spread(rng, s)
        a = dict(ranks=tucker_ranks(rng, s))
    else:
        X = rnd_data(rng, s, rng.choice(["pos", "lowrank", "int"] + (["signed"] if kind == "cp" else ["sparse"])))
        a = dict(rank=rng.choice([1, 2, 2, 3])) if kind != "ntucker" else dict(ranks=[rng.randint(1, 3) for _ in s])
        if kind == "cp":
            a["rank"] = min([a["rank"]] + s)
            cp_data(rng, X, a["rank"])
    if kind != "hosvd":
        a["tol"] = -1.0
    N = len(s)
    ident = [list(range(x)) for x in s]
    vs = [(1.0, ident, list(range(N))), (2.0 ** rng.choice([-16, -10, -5, -1, 1, 4, 12]), ident, list(range(N))),
          (rng.choice([0.001, 0.1, 3.0, 1000.0]), ident, list(range(N)))]
    if kind in ("hosvd", "hooi"):
        vs.append((1.0, [rng.sample(range(x), x) for x in s], list(range(N))))
    if kind == "hosvd":
        vs.append((rng.choice([1.0, 0.25]), [rng.sample(range(x), x) for x in s], rng.sample(range(N), N)))
    models, moved = [], []
    for by, perm, modes in vs:
        b = dict(a)
        if "ranks" in b:
            b["ranks"] = [a["ranks"][m] for m in modes]
        models.append(dict(kind=kind, args=b, X=move(X, perm, modes, by), xdt="float64", graph=len(models)))
        moved.append(dict(by=by, perm=perm, modes=[m + 1 for m in modes]))
    k = rng.randint(1, 5)
    return dict(models=models, seed=rng.randint(1, 10 ** 6), want=["state", "steps"] + (["facs"] if kind == "cp" else []), check="follow", moved=moved,
                ops=[["build", q] for q in range(len(models))] + [["train", q, k] for q in range(len(models))])


def move(X, perm, modes, by):
    s = X["s"]
    t = [s[m] for m in modes]
    d = []
    for n in range(prod(s)):
        q, ix = n, []
        for x in reversed(t):
            ix.append(q % x)
            q //= x
        ix.reverse()
        old = [0] * len(s)
        for k, m in enumerate(modes):
            old[m] = perm[m][ix[k]]
        p = 0
        for m, i in enumerate(old):
            p = p * s[m] + i
        d.append(X["d"][p] * by)
    return {"s": t, "d": d}


def fit_case(job, rec):
    if "ev" not in rec:
        return dict(id=rec["id"], check=job["check"], err=rec.get("err", "none"), runs=[])
    runs = []
    for m, e in zip(rec["models"], [e for e in rec["ev"] if e["op"] == "train"]):
        t = dict(kind=m["kind"], ranks=m["ranks"])
        t.update({k: e[k] for k in ("full", "fac", "core", "hist", "err") if k in e})
        t.update({k: e[k] for k in (("steps", "facs") if job["check"] == "bounds" else ("facs",)) if k in e})
        runs.append(t)
    for e in rec["ev"]:
        if e["op"] == "build" and "err" in e:
            runs[e["m"] - 1]["err"] = e["err"]
    for t, q in zip(runs, job.get("moved", [])):
        t.update(by=fxof(q["by"]), perm=q["perm"], modes=q["modes"])
    return dict(id=rec["id"], check=job["check"], X=rec["models"][0]["X"], runs=runs)


def worse(t, X, f):
    """The tensor t, farther from X by the factor f."""
    t["d"] = [fxof(val(x) + f * (val(t0) - val(x))) for t0, x in zip(t["d"], X["d"])]


def corrupt_c34(rng, d):
    t = rng.choice(d["runs"])
    ok = [t for t in d["runs"] if t["kind"] != "cp"]
    if ok:
        t = rng.choice(ok)
        if sum((val(a) - val(b)) ** 2 for a, b in zip(t["full"]["d"], d["X"]["d"])) < 1e-3 * sum(val(b) ** 2 for b in d["X"]["d"]):
            i = max(range(len(d["X"]["d"])), key=lambda k: abs(val(d["X"]["d"][k])))
            t["full"]["d"][i] = fxof(val(t["full"]["d"][i]) * 1.5)
            return True
        worse(t["full"], d["X"], 1.2)
        return True
    t = d["runs"][0]
    if len(t["steps"]) < 2:
        return False
    t["steps"][1] = dict(t["steps"][1], d=[fxof(2 * val(x) + 1) for x in t["steps"][1]["d"]])
    e = lambda q: sum((val(a) - val(b)) ** 2 for a, b in zip(q["d"], d["X"]["d"]))
    return e(t["steps"][1]) > e(t["steps"][0]) * 1.1 and kappa_ok(t)


def kappa_ok(t):
    return len(t["fac"][0]["d"]) == t["fac"][0]["s"][0]        # one component: always well-conditioned


def corrupt_c35(rng, d):
    t = rng.choice(d["runs"][1:])
    if rng.random() < 0.5 or not t["hist"]:
        t["full"]["d"] = [fxof(1.02 * val(x)) for x in t["full"]["d"]]
    else:
        q = rng.choice(t["hist"])
        q[1] = fxof(val(q[1]) * 1.05 + 0.02)
    return True


def fits(ctx, gen, nq, nt, corrupt, rule):
    rng = random.Random("%s-%s" % (ctx.prop, ctx.seed))
    jobs = [gen(rng, n) for n in range(nt if ctx.thorough else nq)]
    for n, j in enumerate(jobs):
        j["id"] = n + 1
    ctx.samples = [dict(models=[dict(m, X=m["X"]["s"]) for m in j["models"]], ops=j["ops"]) for j in jobs[:3]]
    recs = ctx.drive("train", jobs, timeout=2400 if ctx.thorough else 500)
    ctx.log("%d groups of trainings" % len(recs))
    cases = [fit_case(jobs[r["id"] - 1], r) for r in recs]
    v = ctx.judge("BoundsTrace", cases, timeout=2400 if ctx.thorough else 700)
    controls(ctx, "BoundsTrace", [c for c in cases if c["id"] not in v], rng, corrupt, done=False)
    return dict(level="model_checking", rule=rule, assumptions=["errors are compared up to single-precision rounding (2e-5 of the squared norm)"])


def c34(ctx):
    for cfg, exp in [("CpLoop-ok", "ok"), ("CpLoop-jacobi", "Descends"), ("CpLoop-first", "Descends"), ("CpLoop-gram", "Descends")]:
        ctx.model_check("CpLoop", cfg, expect=exp)
    return fits(ctx, bounds_job, 240, 4000, corrupt_c34, "HOSVD at two nested ranks and HOOI on the same data, CP-ALS for up to 30 steps; "
                "TLC computes every error from the reconstruction shown, and the condition of the systems CP solved where its error grew")


def c35(ctx):
    return fits(ctx, follow_job, 300, 4000, corrupt_c35, "each model trained with the same seed on data, on the data in other units, and (HOSVD, HOOI) "
                "with indices relabelled or (HOSVD) modes reordered; TLC moves the first result and compares")


CHECKS = {"C33": c33, "C34": c34, "C35": c35}
