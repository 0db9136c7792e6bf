"""Properties of whole trainings and of scripts of operations (C18, C19, C20, C21, C22, C24)."""
import copy, random
from props_ops import prod
from props_train import cp_data, rnd_data, tucker_ranks, fxof, val, vary_forms

ITER = ["cp", "ncp", "ntucker", "hooi"]
KINDS = ITER + ["hosvd"]


def small(rng, cap=60, orders=(2, 3, 3, 3, 4)):
    """Sizes of a small tensor; mostly pairwise different."""
    k = rng.random()
    if k < 0.07 and cap >= 36:          # one long mode
        s = rng.choice([[11, 3], [2, 12], [13, 2], [11, 1, 3], [2, 13], [3, 12]] if cap < 44 else [[11, 2, 2], [2, 12, 2], [13, 3], [14, 2], [2, 2, 11]])
        return list(s)
    if k < 0.12 and cap >= 32 and max(orders) > 3:     # many modes
        return rng.choice([[2, 2, 2, 2, 2], [3, 1, 2, 2, 2], [2, 1, 2, 1, 2, 3], [11, 1, 1, 3], [2, 2, 3, 2]])[:]
    while True:
        n = rng.choice(orders)
        hi = {2: 8, 3: 6, 4: 4}[n]
        s = rng.sample(range(2, hi + 1), n) if n < 4 and rng.random() < 0.75 else [rng.randint(1 if rng.random() < 0.1 else 2, hi) for _ in range(n)]
        if 4 <= prod(s) <= cap:
            return s


def model(rng, kind, s, xk=None, tol=-1.0, ranks=None, opts=None, xdt=None):
    a = {}
    if ranks is None:
        if kind == "cp":
            ranks = rng.choice([1, 2, 2, 3])
        elif kind == "ncp":
            ranks = rng.choice([1, 2, 3])
        elif kind == "ntucker":
            ranks = [rng.randint(1, 3) for _ in s]
        else:
            ranks = tucker_ranks(rng, s)
    a["rank" if kind in ("cp", "ncp") else "ranks"] = ranks
    if kind != "hosvd":
        if tol is not None:
            a["tol"] = tol
        if opts is None:
            k = rng.random()
            opts = dict(verbose=rng.choice([True, True, 1])) if k < 0.25 else dict(verbose=0) if k < 0.3 else dict(validation_internal=rng.choice([1, 2, 3, 4, 5, 50])) if k < 0.6 else {}
        a.update(opts)
    X = rnd_data(rng, s, xk or rng.choice(["pos", "lowrank", "int", "sparse"]))
    if kind == "cp":
        cp_data(rng, X, ranks)
    return dict(kind=kind, args=a, X=X, xdt=xdt or rng.choice(["float32", "float64"]))


def positive(m, f=1.0):
    m["X"]["d"] = [max(x, 0.03125) * f for x in m["X"]["d"]]


def number(jobs, start=1):
    for n, j in enumerate(jobs):
        j["id"] = start + n
    return jobs


def as_case(job, rec, check):
    if "err" in rec:
        return dict(id=rec["id"], models=[], ev=[], check=check, err=rec["err"])
    c = dict(id=rec["id"], models=rec["models"], ev=rec["ev"], check=check)
    for e in c["ev"]:
        e.pop("msg", None)
    return c


def run_scripts(ctx, jobs, check, timeout):
    vary_forms("%s-%s-%d" % (ctx.prop, ctx.seed, jobs[0]["id"]), [j for j in jobs if not any("form" in m for m in j["models"])])
    recs = ctx.drive("train", jobs, timeout=timeout)
    byid = {j["id"]: j for j in jobs}
    ctx.log("%d scripts replayed" % len(recs))
    return [as_case(byid[r["id"]], r, check) for r in recs]


def sample_of(jobs):
    return [dict(models=[dict(m, X=m["X"]["s"]) for m in j["models"]], ops=j["ops"]) for j in jobs[:3]]


def judge(ctx, cases, corrupt, rng, ncontrol=8):
    v = ctx.judge("ScriptTrace", cases, done=True, timeout=2400 if ctx.thorough else 700)
    good = [c for c in cases if c["id"] not in v]
    keep = (list(ctx.violations), ctx.traces, ctx.evaluations, copy.deepcopy(ctx.kinds), dict(ctx.note_counts), ctx.states, ctx.transitions)
    bad = []
    rng.shuffle(good)
    for c in good:
        d = copy.deepcopy(c)
        if corrupt(rng, d):
            d["id"] = 100000 + len(bad)
            bad.append(d)
        if len(bad) >= ncontrol:
            break
    if bad:
        w = ctx.judge("ScriptTrace", bad, done=True)
        (ctx.violations, ctx.traces, ctx.evaluations, ctx.kinds, ctx.note_counts, ctx.states, ctx.transitions) = keep
        rej = sum(1 for x in w.values() if any(t == "FAIL" for t, _ in x))
        ctx.controls = dict(corrupted=len(bad), rejected=rej)
        ctx.log("controls: %d corrupted traces, %d rejected" % (len(bad), rej))


def trains(c):
    return [e for e in c["ev"] if e["op"] == "train" and "err" not in e]


# ---- C18 -------------------------------------------------------------------
def objectives(X, hist):
    n = len(X["d"])
    return [n * val(a) ** 2 / 2 for a, _ in hist]


def simulate(kind, objs, rels, tol, K):
    """(steps, reason, restarts): only chooses interesting tolerances; TLC judges."""
    ns, restarts, ref = 0, 0, None
    for k, (o, r) in enumerate(zip(objs, rels), 1):
        if k == 1:
            ref = o + 1
        below = abs(o - ref) / (ref + 1) < tol
        if not below and ns:
            restarts += 1
        ns = ns + 1 if below else 0
        if ns >= 3:
            return k, "stall", restarts
        if r < tol:
            return k, "residual", restarts
        if k == K:
            return k, "steps", restarts
        if kind in ("cp", "hooi") or o < ref:
            ref = o
    return len(objs), "open", restarts


def c18(ctx):
    rng = random.Random("C18-%s" % ctx.seed)
    for cfg, exp in [("TrainLoop-ok", "ok"), ("TrainLoop-no-reset", "StopsExactly"), ("TrainLoop-two", "StopsExactly"), ("TrainLoop-ref", "StopsExactly")]:
        ctx.model_check("TrainLoop", cfg, expect=exp)
    first = []
    for n in range(400 if ctx.thorough else 64):
        kind = ITER[n % 4]
        m = model(rng, kind, small(rng, 40), rng.choice(["pos", "pos", "lowrank", "lowrank0"]), tol=-1.0, opts={})
        K = rng.randint(8, 16)
        if n % 8 >= 4 and rng.random() < 0.8:
            sc = [1.0] * (K + 1)
            for _ in range(rng.choice([1, 2, 3])):
                sc[rng.randint(2, K - 1)] = rng.choice([2.0, 4.0, 0.5, 0.25, 1.25])
            m["scale"] = sc
        positive(m, rng.choice([1.0, 1.0, 0.25, 8.0, 64.0]))
        first.append(dict(models=[m], seed=rng.randint(1, 10 ** 6), want=["nostate"], ops=[["build", 0], ["train", 0, K]]))
    number(first)
    cases1 = run_scripts(ctx, first, "stop", 600)
    second = []
    for c in cases1:
        if "err" in c or not trains(c):
            continue
        job = first[c["id"] - 1]
        kind, X = c["models"][0]["kind"], c["models"][0]["X"]
        h = trains(c)[0]["hist"]
        if not h or any(x[0] in (2, 3, 4) for p in h for x in p):
            continue
        objs, rels = objectives(X, h), [val(b) for _, b in h]
        K = len(h)
        ref, crits = None, []
        for k, o in enumerate(objs):
            ref = o + 1 if k == 0 else ref
            crits.append(abs(o - ref) / (ref + 1))
            if kind in ("cp", "hooi") or o < ref:
                ref = o
        vals = sorted(set(x for x in crits + rels if x > 1e-6))
        cand = []
        for a, b in zip(vals, vals[1:]):
            if b - a > 4e-5 + 0.02 * a:
                t = float("%.6g" % ((a + b) / 2))
                k, why, rs = simulate(kind, objs, rels, t, K)
                cand.append((why, rs > 0, k, t))
        if vals:
            cand.append(("big", False, 1, vals[-1] * 2 + 1))
        rng.shuffle(cand)
        # restarted counts first, then stalls, then residual stops
        cand.sort(key=lambda q: (not (q[1] and q[0] == "stall"), not q[1], q[0] != "stall", q[0] != "residual"))
        pick, seen = [], set()
        for q in cand:
            if (q[0], q[1]) not in seen or len(cand) < 4:
                seen.add((q[0], q[1]))
                pick.append(q)
        for why, rs, k, t in pick[:3]:
            j = copy.deepcopy(job)
            j.pop("id")
            j["models"][0]["args"]["tol"] = t
            j["models"][0]["args"].update(rng.choice([{}, {}, dict(verbose=True), dict(validation_internal=rng.choice([2, 3, 7]))]))
            j["ops"][1][2] = rng.choice([K, K, K, max(1, k), k + 1, max(1, k - 1)])
            second.append(j)
    # the default tolerance and long trainings, on data with zeros too
    for n in range(40 if ctx.thorough else 12):
        kind = ITER[n % 4]
        m = model(rng, kind, small(rng, 40), tol=None if n % 3 else 1e-3)
        second.append(dict(models=[m], seed=rng.randint(1, 10 ** 6), want=["nostate"], ops=[["build", 0], ["train", 0, 60]]))
    # a tolerance of zero is never met, also where training has come to rest in single precision
    for n in range(60 if ctx.thorough else 16):
        kind = ITER[n % 4]
        m = model(rng, kind, small(rng, 18), rng.choice(["pos", "lowrank", "lowrank"]), tol=rng.choice([0, 0.0, -0.0]),
                  ranks=1 if kind in ("cp", "ncp") else None, opts=dict(validation_internal=25))
        second.append(dict(models=[m], seed=rng.randint(1, 10 ** 6), want=["nostate"], ops=[["build", 0], ["train", 0, rng.choice([40, 70])]]))
    number(second, 1 + len(first))
    cases2 = run_scripts(ctx, second, "stop", 900)
    ctx.samples = sample_of(second)
    cases = cases1 + cases2
    early = sum(1 for c in cases2 for e in trains(c) if e["n"] < e["k"])
    ctx.log("%d trainings, %d stopped before the requested number of steps" % (len(cases), early))

    def corrupt(rng, c):
        e = trains(c)[-1]
        if e["n"] < e["k"] and e["n"] > 1:
            e["hist"] = e["hist"][:-1]      # as if training had stopped one step earlier
            e["n"] -= 1
            return True
        return False
    judge(ctx, cases, corrupt, rng, 16)
    return dict(level="model_checking", rule="TLC evaluates the stopping rule on each recorded history (loss and residual per step); "
                "tolerances are chosen between the values that occurred in a first run, so that restarts of the stall count, "
                "stops by stall, by residual and by the step limit all occur", assumptions=ASSUME, extra=dict(early_stops=early))


# ---- C19 -------------------------------------------------------------------
def c19(ctx):
    rng = random.Random("C19-%s" % ctx.seed)
    jobs = []
    for n in range(400 if ctx.thorough else 64):
        kind = ITER[n % 4]
        K = rng.randint(3, 7)
        m = model(rng, kind, small(rng, 60), rng.choice(["sparse", "int", "slices", "pos", "lowrank"] + (["signed"] if kind in ("cp", "hooi") else [])),
                  tol=-1.0 if n % 8 < 4 else rng.choice([0.02, 0.1, 0.3]))
        if rng.random() < 0.2:
            m["X"]["d"] = [x * rng.choice([100.0]) for x in m["X"]["d"]]
        ks = sorted(rng.sample(range(1, K), min(2, K - 1)))
        if rng.random() < 0.5:      # the data move between two steps, so that the loss jumps up and down
            sc = [1.0] * (K + 4)
            for _ in range(rng.choice([1, 2, 3])):
                sc[rng.randint(1, K + 2)] = rng.choice([2.0, 4.0, 0.5, 0.25, 1.25])
            m["scale"] = sc
        if rng.random() < 0.5:
            m["args"].pop("verbose", None)
        jobs.append(dict(models=[m], seed=rng.randint(1, 10 ** 6), want=["state", "steps"],
                         ops=[["build", 0], ["train", 0, K + 4]] + [["train", 0, k] for k in ks]))
    number(jobs)
    cases = run_scripts(ctx, jobs, "hist", 600)
    ctx.samples = sample_of(jobs)
    nst = sum(len(e.get("steps", [])) for c in cases for e in trains(c))
    ctx.log("%d step states seen" % nst)

    def corrupt(rng, c):
        e = rng.choice(trains(c))
        if not e["hist"]:
            return False
        p = e["hist"][-1 if len(e.get("steps", [])) != e["n"] else rng.randrange(e["n"])]
        q = rng.randrange(2)
        if val(p[q]) < 1e-3:
            return False
        p[q] = fxof(val(p[q]) * (1 + rng.choice([-1, 1]) * 0.01))
        return True
    judge(ctx, cases, corrupt, rng)
    return dict(level="model_checking", rule="per training, TLC recomputes loss and residual from the data and the reconstruction "
                "the model showed after each step (seen at the next session run and after training), and compares histories of longer "
                "trainings with the states of shorter ones", assumptions=ASSUME, extra=dict(step_states=nst))


# ---- C20 -------------------------------------------------------------------
def script_ops(rng, script, mods, ks):
    ops = []
    for op, m, s in script:
        if op == "train":
            ops.append(["train", m - 1, ks[s] if s in ks else s])
        elif op == "predict":
            sz = mods[m - 1]["X"]["s"]
            ops.append(["predict", m - 1, [rng.randrange(x) for x in sz] if rng.random() < 0.7 else [x - 1 for x in sz]])
        else:
            ops.append([op, m - 1])
    return ops


def c20(ctx):
    rng = random.Random("C20-%s" % ctx.seed)
    for cfg, exp in [("Lifecycle", "ok"), ("Lifecycle-flag", "BusyNotFinished"), ("Lifecycle-shared", "OwnResult"), ("Lifecycle-forget", "Keeps")]:
        ctx.model_check("Lifecycle", cfg, expect=exp)
    gen = ctx.generate("LifecycleGen", "LifecycleGen1", workers=1)
    jobs = []
    pool = [g for g in gen if sum(1 for o in g if o[0] == "build") <= 2]
    for n in range(1000 if ctx.thorough else 150):
        kind = KINDS[n % 5]
        m = model(rng, kind, small(rng, 40), tol=rng.choice([-1.0, -1.0, 0.05, 0.3, 2.0]))
        if kind in ("cp", "hooi", "hosvd") and rng.random() < 0.2:
            m["X"] = rnd_data(rng, m["X"]["s"], "signed")
        elif n % 10 < 5:            # a few entries below zero, also for the non-negative models
            d = m["X"]["d"]
            for q in rng.sample(range(len(d)), min(len(d), rng.randint(1, 3))):
                d[q] = -rng.randint(1, 16) / 64.0
            m["xdt"] = rng.choice(["float32", "float32", "float64"])
        lens = {1: 1, 3: rng.randint(2, 6)}
        if kind != "hosvd" and n % 4 < 2:
            # ends early after 1 to 9 steps, with states that differ from step to step: data large against the 1 of the
            # stopping rule, badly fitted, and changing by a few percent while training runs
            m["X"] = rnd_data(rng, m["X"]["s"], "pos")
            m["X"]["d"] = [rng.choice([64.0, 32.0, 1.0]) * x for x in m["X"]["d"]]
            m["args"]["rank" if "rank" in m["args"] else "ranks"] = 1 if "rank" in m["args"] else [1] * len(m["X"]["s"])
            m["args"]["tol"] = 0.2
            if rng.random() < 0.7:
                m["args"].pop("verbose", 0)
                m["args"]["validation_internal"] = rng.choice([-1, -1, 2, 5])
            q = rng.randint(1, 5)
            m["scale"] = [1.0] + [rng.choice([3.0, 0.25]) if k < q and rng.random() < 0.7 else rng.choice([1.06, 0.96]) for k in range(1, 12)]
            lens = {1: rng.choice([1, 4]), 3: rng.randint(8, 12)}
        sc = list(rng.choice(pool))
        if n % 3 == 0:      # ask once more at the end
            sc = sc + [["predict", 1, 0]] * 4 + [["read", 1, 0]]
        jobs.append(dict(models=[m], seed=rng.randint(1, 10 ** 6), want=["state", "readstate"],
                         ops=script_ops(rng, sc, [m], lens)))
    number(jobs)
    cases = run_scripts(ctx, jobs, "life", 700)
    ctx.samples = sample_of(jobs)

    def corrupt(rng, c):
        ts = trains(c)
        k = rng.randrange(4)
        e = rng.choice(ts)
        if k == 0:
            e["finish"] = False
        elif k == 1:
            e["during"] = True
        elif k == 2:
            t = e["full"]
            i = rng.randrange(len(t["d"]))
            t["d"][i] = fxof(val(t["d"][i]) + 0.05)
        else:
            ps = [x for x in c["ev"] if x["op"] == "predict" and "val" in x]
            if not ps:
                return False
            p = rng.choice(ps)
            p["val"] = fxof(val(p["val"]) + 0.01)
        return True
    judge(ctx, cases, corrupt, rng)
    return dict(level="model_checking", rule="scripts of build / train / predict / read generated by TLC from Lifecycle (length 6, one model), "
                "replayed on the five models with generated data; TLC follows the recorded script", assumptions=ASSUME)


# ---- C21 -------------------------------------------------------------------
def c21(ctx):
    rng = random.Random("C21-%s" % ctx.seed)
    jobs = []
    for n in range(300 if ctx.thorough else 48):
        kind = KINDS[n % 5]
        base = model(rng, kind, small(rng, 50), rng.choice(["pos", "pos", "lowrank", "int"]), tol=-1.0, opts={})
        if rng.random() < 0.3:
            base["xdt"] = "float64"
        K = rng.randint(4, 9)
        mods, ops = [], []
        variants = [{}, dict(verbose=True), dict(validation_internal=2), dict(validation_internal=rng.choice([1, 3, K, 50])),
                    dict(verbose=True, validation_internal=3)]
        rng.shuffle(variants)
        for g, vr in enumerate(variants[:3]):
            m = copy.deepcopy(base)
            m["graph"] = g
            if kind != "hosvd":
                m["args"].update(vr)
                if g == 2:
                    m["args"]["tol"] = rng.choice([-1.0, 1e-4, 0.02, 0.1])
            mods.append(m)
        ask = lambda g: rng.choice([[], [], [["read", g]], [["predict", g, [rng.randrange(x) for x in base["X"]["s"]]], ["read", g]]])
        ops += [["build", 0], ["train", 0, K]] + ask(0)
        ops += [["build", 1]] + [["train", 1, rng.randint(1, K)]] + ask(1) + [["train", 1, K]]
        ops += ask(0) + [["train", 0, rng.randint(1, K)]] + ask(0)
        ops += [["build", 2], ["train", 2, K], ["train", 2, rng.randint(1, K)], ["train", 0, K]]
        jobs.append(dict(models=mods, seed=rng.randint(1, 10 ** 6), want=["state"], ops=ops))
    number(jobs)
    cases = run_scripts(ctx, jobs, "repro", 700)
    ctx.samples = sample_of(jobs)

    def corrupt(rng, c):
        ts = trains(c)[1:]
        if not ts:
            return False
        e = rng.choice(ts)
        if e["hashist"] and rng.random() < 0.6:
            p = rng.choice(e["hist"])
            q = rng.randrange(2)
            if val(p[q]) < 1e-2:
                return False
            p[q] = fxof(val(p[q]) * (1 + rng.choice([2e-3, 2e-6])))
            return True
        if e["n"] != trains(c)[0]["n"]:
            return False
        d = e["full"]["d"]
        i = rng.randrange(len(d))
        d[i] = fxof(val(d[i]) * 1.01 + 0.05)
        return True
    judge(ctx, cases, corrupt, rng)
    return dict(level="model_checking", rule="groups of trainings of one model configuration (same graph seed and data) that differ in verbosity, "
                "validation interval, tolerance, number of steps and what happened before; TLC compares common prefixes of the histories and the results",
                assumptions=ASSUME)


# ---- C22 -------------------------------------------------------------------
def c22(ctx):
    rng = random.Random("C22-%s" % ctx.seed)
    ctx.model_check("Lifecycle", "Lifecycle", expect="ok")
    ctx.model_check("Lifecycle", "Lifecycle-shared", expect="OwnResult")
    two = ctx.generate("LifecycleGen", "LifecycleGen2", workers=1)
    three = ctx.generate("LifecycleGen", "LifecycleGen3", workers=1)
    jobs = []
    for n in range(500 if ctx.thorough else 72):
        sc = rng.choice(three if n % 4 == 3 else two)
        nm = max(o[1] for o in sc)
        together = n % 2 == 0
        kind = KINDS[n % 5]
        mods = []
        for q in range(nm):
            k = kind if rng.random() < 0.4 else rng.choice(KINDS)
            s = small(rng, 40) if q == 0 or rng.random() < 0.5 else list(mods[0]["X"]["s"])
            m = model(rng, k, s, tol=rng.choice([-1.0, -1.0, -1.0, 0.1, 0.5, 4.0]),
                      opts=rng.choice([{}, dict(verbose=True), dict(validation_internal=2), dict(validation_internal=3)]) if k != "hosvd" else None)
            m["graph"] = 0 if together else q
            mods.append(m)
        if n % 3 == 1 and mods[0]["kind"] != "hosvd":       # one kind, one shape, other options
            for q in range(1, nm):
                mods[q] = dict(copy.deepcopy(mods[0]), graph=mods[q]["graph"], X=rnd_data(rng, mods[0]["X"]["s"], "pos"))
                mods[q]["args"]["tol"] = rng.choice([-1.0, 0.1, 4.0])
                if rng.random() < 0.5:
                    mods[q]["args"].update(rng.choice([dict(verbose=True), dict(validation_internal=2), dict(verbose=False)]))
            if n % 2:       # all built before the first is trained
                sc = sorted((o for o in sc if o[0] == "build"), key=lambda o: o[1]) + [o for o in sc if o[0] != "build"]
        jobs.append(dict(models=mods, seed=rng.randint(1, 10 ** 6), want=["state"],
                         ops=script_ops(rng, sc, mods, {2: rng.randint(2, 4)})))
    number(jobs)
    # the same builds, but only the one training
    bases, link = [], []
    for j in jobs:
        for n, op in enumerate(j["ops"]):
            if op[0] != "train":
                continue
            before = j["ops"][:n]
            det = j["models"][op[1]]["kind"] in ("hosvd", "hooi")
            mixed = any(o[0] == "train" and any(p[0] == "build" for p in before[i + 1:]) for i, o in enumerate(before))
            same_graph = j["models"][0].get("graph", 0) == j["models"][-1].get("graph", 0)
            if det:
                builds = [["build", op[1]]]
            elif mixed:
                continue
            else:
                builds = [o for o in before if o[0] == "build" and (same_graph or o[1] == op[1])]
            b = dict(models=j["models"], seed=j["seed"], want=["state"], ops=builds + [op])
            b = copy.deepcopy(b)
            own = b["models"][op[1]]
            for q in b["models"]:       # nobody else's options
                if q["kind"] == own["kind"]:
                    key = "rank" if "rank" in q["args"] else "ranks"
                    q["args"] = dict(own["args"], **{key: q["args"][key]})
            bases.append(b)
            link.append((j["id"], n))
    number(bases, 1 + len(jobs))
    vary_forms("%s-%s" % (ctx.prop, ctx.seed), jobs)     # the references get plain arrays
    recs = ctx.drive("train", jobs + bases, timeout=800)
    byid = {r["id"]: r for r in recs}
    cases = [as_case(j, byid[j["id"]], "indep") for j in jobs if j["id"] in byid]
    cid = {c["id"]: c for c in cases}
    nb = 0
    for b, (jid, n) in zip(bases, link):
        r = byid.get(b["id"])
        c = cid.get(jid)
        if r is None or c is None or "err" in r or "err" in c or n >= len(c["ev"]):
            continue
        e = r["ev"][-1]
        if "err" in e:
            continue
        c["ev"][n]["base"] = dict(n=e["n"], hist=e["hist"], full=e["full"], lines=e["lines"])
        nb += 1
    ctx.log("%d scripts with several models, %d trainings compared with the model alone" % (len(cases), nb))
    ctx.samples = sample_of(jobs)

    def corrupt(rng, c):
        ts = [e for e in trains(c) if "base" in e]
        k = rng.randrange(2)
        if k == 0 and ts:
            e = rng.choice(ts)
            d = e["full"]["d"]
            i = rng.randrange(len(d))
            d[i] = fxof(val(d[i]) * 1.05 + 0.1)
            return True
        es = [(a, b) for a, b in zip(c["ev"], c["ev"][1:]) if b["m"] != a["m"] and a["held"][a["m"] - 1][0] != -1]
        if not es:
            return False
        a, b = rng.choice(es)
        b["held"][a["m"] - 1][0] ^= 1
        return True
    judge(ctx, cases, corrupt, rng)
    return dict(level="model_checking", rule="scripts of build / train / predict / read over two and three models generated by TLC from Lifecycle, "
                "replayed with models of the same and of different kinds in one graph and in separate graphs; TLC follows what every model holds and "
                "compares each training with the run of that model alone", assumptions=ASSUME, extra=dict(compared_alone=nb))


# ---- C24 -------------------------------------------------------------------
def c24(ctx):
    rng = random.Random("C24-%s" % ctx.seed)
    for cfg, exp in [("TrainLoop-ok", "ok"), ("TrainLoop-report", "ReportsExactly")]:
        ctx.model_check("TrainLoop", cfg, expect=exp)
    jobs = []
    for n in range(400 if ctx.thorough else 80):
        kind = KINDS[n % 5]
        K = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12])
        opts = rng.choice([{}, dict(verbose=rng.choice([True, 1, 2])), dict(validation_internal=rng.choice([1, 2, 3, 4, 5, 6, K, K + 1, 50]), verbose=rng.choice([False, 0])),
                           dict(validation_internal=rng.choice([2, 3, 4])), dict(verbose=True, validation_internal=rng.choice([2, 3]))])
        m = model(rng, kind, small(rng, 36), tol=rng.choice([-1.0, -1.0, 0.05, 0.3, 1.5]), opts=opts)
        if rng.random() < 0.2:
            m["X"]["d"] = [x * 1000.0 for x in m["X"]["d"]]
        ops = [["build", 0], ["train", 0, K]]
        mods = [m]
        if n % 4 == 3:      # a second model in the same graph, trained in between
            m2 = model(rng, rng.choice(KINDS), small(rng, 30), opts=None)
            mods.append(m2)
            ops = [["build", 0], ["build", 1], ["train", 1, 3], ["train", 0, K], ["train", 1, 4]]
        elif n % 4 == 2:
            ops += [["train", 0, rng.randint(1, 6)]]
        jobs.append(dict(models=mods, seed=rng.randint(1, 10 ** 6), want=["state", "sums"], ops=ops))
    # an interval well below the number of steps, which it divides or not
    for n in range(96 if ctx.thorough else 24):
        kind = [k for k in KINDS if k != "hosvd"][n % 4]
        v = rng.choice([2, 3, 4])
        K = v * rng.choice([2, 3]) + (rng.randint(1, v - 1) if n // 4 % 3 else 0)
        m = model(rng, kind, small(rng, 30), tol=-1.0, opts=dict(validation_internal=v))
        jobs.append(dict(models=[m], seed=rng.randint(1, 10 ** 6), want=["state", "sums"], ops=[["build", 0], ["train", 0, K]]))
    number(jobs)
    cases = run_scripts(ctx, jobs, "report", 700)
    ctx.samples = sample_of(jobs)

    def corrupt(rng, c):
        ts = [e for e in trains(c) if e["hashist"] and e["sums"] and e["lines"]]
        if not ts:
            return False
        e = rng.choice(ts)
        k = rng.randrange(4)
        if k == 0:
            e["lines"].pop()
        elif k == 1:
            e["sums"].pop(rng.randrange(len(e["sums"])))
        elif k == 2:
            s = rng.choice(e["sums"])
            if val(s["rel"]) < 1e-3:
                return False
            s["rel"] = fxof(val(s["rel"]) * 1.01)
        else:
            s = rng.choice(e["lines"])
            s[0] += 1
        return True
    judge(ctx, cases, corrupt, rng)
    return dict(level="model_checking", rule="trainings with all combinations of verbosity, interval, step limit and early stops; TLC compares the printed lines "
                "and the summary records with the steps the reporting rule gives and with the returned history", assumptions=ASSUME)


ASSUME = ["summary files are flushed by the harness before they are read (the code leaves that to the end of the process)",
          "float32 rounding allowances; comparisons of the stopping rule within them are accepted either way"]

CHECKS = {"C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C24": c24}
