"""C23: no races between the operations of a session run."""
import copy, random
from props_obj import controls
from props_script import small, model
from props_train import rnd_data
from props_ops import prod


def spec_of(rng, kind, orders):
    if kind == "pitf":
        s = rng.sample(range(2, 6), 3)
        X = {"s": s, "d": [(k + 1) / 64.0 for k in rng.sample(range(4 * prod(s)), prod(s))]}
        return dict(kind="pitf", X=X, xdt="float32", args=dict(rank=2, delt=rng.choice([0.1, 0.3]), tao=rng.choice([0.01, 0.1]), sample_num=rng.choice([2, 4, 6]),
                                                              validation_internal=rng.choice([-1, 2])))
    m = model(rng, kind, small(rng, cap=300, orders=orders))
    for k in range(len(m["X"]["d"])):
        m["X"]["d"][k] = max(m["X"]["d"][k], 1 / 64.0)
    return m


def c23(ctx):
    rng = random.Random(ctx.seed * 7919 + 23)
    ctx.model_check("OpSched", "OpSched-ok", note="graphs without a race give one result under every schedule")
    ctx.model_check("OpSched", "OpSched-writes", expect="Confluent", note="ordering the writes alone is not enough")
    ctx.model_check("OpSched", "OpSched-none", expect="Confluent")
    kinds = ["cp", "ncp", "ntucker", "hooi", "hosvd", "pitf"]
    jobs = []
    for kind in kinds:
        for o in ((3,) if kind == "pitf" else (2, 3, 4, 5)):
            for q in range(3 if ctx.thorough else 1):
                m = spec_of(rng, kind, (o,) if o < 5 else (4,))
                if o == 5:
                    s = [rng.randint(2, 3) for _ in range(5)]
                    rk = [rng.randint(1, 2) for _ in s]
                    if kind in ("hooi", "hosvd") and rk.count(2) == 1:      # no rank above the product of the others
                        rk[rk.index(1)] = 2
                    m = model(rng, kind, s, ranks=2 if kind in ("cp", "ncp") else rk, xk="pos")
                jobs.append(dict(models=[m], trains=[[0, rng.randint(3, 6)], [0, 2]]))
    for _ in range(12 if ctx.thorough else 4):      # several models in one graph, trained in turns
        ms = [spec_of(rng, rng.choice(kinds[:4]), (2, 3)) for _ in range(rng.choice([2, 2, 3]))]
        jobs.append(dict(models=ms, trains=[[rng.randrange(len(ms)), rng.randint(2, 4)] for _ in range(3)]))
    for kind in kinds:
        for q in range(8 if ctx.thorough else 1):
            m = spec_of(rng, kind, (3,) if q % 2 == 0 else (2, 4))
            jobs.append(dict(models=[m], trains=[[0, 3]], sched=dict(runs=7, orders=9 if ctx.thorough else 4)))
    for n, j in enumerate(jobs):
        j["id"], j["seed"] = n + 1, rng.randint(1, 10 ** 6)
    ctx.samples = [dict(kinds=[m["kind"] for m in j["models"]], trains=j["trains"], sched=j.get("sched")) for j in jobs[:3] + jobs[-1:]]
    raw = ctx.drive("opgraph", jobs, timeout=1500 if ctx.thorough else 500)
    cases = []
    for r in raw:
        runs = [dict(x, kinds=r.get("kinds")) for x in r.get("runs", []) + r.get("sched", []) + [dict(y, exec=True) for y in r.get("exec", [])]]
        if "err" in r:
            runs.append(dict(err=r["err"], msg=r.get("msg", "")))
        for x in runs:
            if x.get("g", 0) is None:
                del x["g"]
            x["id"], x["job"] = len(cases) + 1, r["id"]
            cases.append(x)
    nw = sum(1 for c in cases for n in c.get("g", []) if n["t"].startswith("Assign"))
    v = ctx.judge("OpGraphTrace", cases)
    ns = sum(len(c.get("exts", [])) for c in cases)
    ctx.log("%d runs, %d nodes, %d writes, %d forced schedules" % (len(cases), sum(len(c.get("g", [])) for c in cases), nw, ns))
    controls(ctx, "OpGraphTrace", [c for c in cases if c["id"] not in v and "g" in c], rng, corrupt, n=16, done=False)
    return dict(level="model_checking",
                rule="every distinct session run of CP, NCP, NTucker, HOOI, HOSVD and PITF trainings of order 2 to 5 (reported and silent steps, initialisation, extrapolation and "
                     "reset runs, several models in one graph): TLC checks that each write of a variable is ordered against every other access, which covers all schedules of the run; "
                     "runs are also executed under forced linear orders and must give bit-identical results",
                assumptions=["the ops of OpGraph's lists are those that write variables or pass their buffers on",
                             "runs that draw random numbers are not compared between orders"],
                extra=dict(graph_nodes=sum(len(c.get("g", [])) for c in cases), writes=nw, forced_schedules=ns))


def corrupt(rng, d):
    if "outs" in d and len(d["outs"]) > 1 and rng.random() < 0.3:
        d["outs"][-1][0] ^= 1
        return True
    g = d["g"]
    w = [k for k in range(len(g)) if g[k]["t"] == "Assign"]
    if not w:
        return False
    k = rng.choice(w)
    # a second, unordered write of the same variable
    g.append(dict(t="Assign", ins=[dict(n=g[k]["ins"][0]["n"], ref=True)], ctl=[], get=False, name="extra"))
    d.pop("outs", None)
    return True


CHECKS = {"C23": c23}
