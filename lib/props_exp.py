"""C37: the experiment, ratings and demo scripts."""
import random
from props_obj import controls
from props_train import fxof, val

EX = ["cp", "ncp", "tucker", "ntucker"]


def ex_run(rng, m, n, g, d, t, fake=None):
    return dict(script="ex/%s_ex.py" % m, kind="ex", m=m, n=n, g=g, d=d, t=t, argv=n + [g, d, t], **({} if fake is None else dict(fake=fake)))


def number(rng):
    k = rng.random()
    if k < 0.25:
        return rng.random()
    if k < 0.4:
        return rng.random() * 10 ** rng.randint(-11, -3)
    if k < 0.55:
        return rng.random() * 10 ** rng.randint(1, 5)
    if k < 0.7:
        return rng.choice([0.0, 1.0, 0.5, 2.0 ** -10, 2.0 ** -11, 5e-11, 1e-10])
    return round(rng.random(), rng.randint(1, 4))


def hist(rng, n):
    return [[number(rng), number(rng)] for _ in range(n)]


def sizes(rng):
    while True:
        n = [rng.randint(2, 6) for _ in range(3)]
        if len(set(n)) > 1:
            return n


def c37(ctx):
    rng = random.Random("C37-%s" % ctx.seed)
    ctx.model_check("ExpRuns", "ExpRuns-big" if ctx.thorough else "ExpRuns-ok", note="every history of runs leaves each announced result complete and from its last run")
    for b in ("append", "short", "last"):
        ctx.model_check("ExpRuns", "ExpRuns-" + b, expect="Faithful")
    jobs = []
    for n in range(40 if ctx.thorough else 10):         # histories of runs with given training histories
        m = EX[n % 4]
        s, g = sizes(rng), rng.choice([1, 2, 3])
        d = rng.choice([q for q in (1, 2, 3, 4) if q != g])
        runs = [ex_run(rng, m, s, g, d, 1, hist(rng, rng.choice([1, 3, 9])))]
        for _ in range(rng.choice([3, 4, 6])):
            k = rng.random()
            a = dict(m=m, n=s, g=g, d=d, t=rng.choice([1, 2, 12]))
            if k < 0.2:
                a["m"] = rng.choice(EX)
            elif k < 0.35:
                a["n"] = [rng.choice([2, 3, 5, 12])] + s[1:]
            elif k < 0.5:
                a["n"] = [s[0], rng.choice([2, 4]), rng.choice([3, 5])]
            elif k < 0.6:
                a["g"], a["d"] = d, g
            elif k < 0.7:
                a["d"] = rng.choice([1, 2, 3])
            if a["m"] == "tucker":
                a["d"] = min(a["d"], min(a["n"]))
            runs.append(ex_run(rng, fake=hist(rng, rng.choice([1, 2, 5, 40])), **a))
        if runs[0]["m"] == "tucker":
            runs[0]["d"] = min(d, min(s))
            runs[0]["argv"][4] = runs[0]["d"]
        jobs.append(dict(runs=runs))
    for m in EX:                                        # trained for real
        for _ in range(4 if ctx.thorough else 1):
            s = sizes(rng)
            g = rng.choice([1, 2])
            d = rng.choice([1, 2])
            if m == "cp":           # more components than the data have: singular systems (see DESIGN, domains)
                g, d = max(g, d), min(g, d)
            jobs.append(dict(runs=[ex_run(rng, m, s, g, d, t) for t in (1, 2)]))
    for m in ("cp", "ncp", "ntucker", "hooi"):
        f = {"hooi": "tucker"}.get(m, m)
        n = [943, 1682, 31]
        at = {tuple(rng.randrange(q) for q in n) for _ in range(rng.choice([40, 200]))} | {(0, 0, 0), (942, 1681, 30)}
        csv = [list(i) + [rng.choice([2, 4, 8, 12, 14, 16, 20])] for i in at]
        csv.sort(key=lambda i: rng.random() if rng.random() < 0.3 else 0)
        jobs.append(dict(runs=[dict(script="ex/ml_%s.py" % f, kind="ml", m=m, n=n, g=0, d=20, t=0, csv=csv, fake=hist(rng, rng.choice([1, 3, 100])))]))
    for f, m in (("cp", "cp"), ("ncp", "ncp"), ("tucker", "tucker"), ("ntucker", "ntucker")):
        jobs.append(dict(runs=[dict(script="demo/%s_demo.py" % f, kind="demo", m=m, n=[20, 20, 20], g=10, d=10, t=0)]))
    jobs.append(dict(runs=[dict(script="demo/multigraph_demo.py", kind="multi", m="tucker", n=[3, 4, 5], g=0, d=2, t=0)]))
    for n, j in enumerate(jobs):
        j["id"] = n + 1
        for r in j["runs"]:
            r["seed"] = rng.randint(1, 10 ** 6)
    ctx.samples = [[r["argv"] for r in j["runs"]] for j in jobs[:3]]
    recs = ctx.drive("expruns", jobs, timeout=1500 if ctx.thorough else 600)
    v = ctx.judge("ExpTrace", recs)
    ctx.log("%d runs" % sum(len(r["runs"]) for r in recs))
    controls(ctx, "ExpTrace", [r for r in recs if r["id"] not in v], rng, corrupt, n=12, done=False)
    return dict(level="model_checking",
                rule="histories of up to seven runs of the experiment scripts with given training histories (lines to ten decimals, overwriting, other files untouched), "
                     "real trainings of every script, the ratings scripts on a 943 x 1682 x 31 tensor (training replaced), and all demos",
                assumptions=["train() is replaced by a stand-in that returns a given history where the run is about the file it leaves; C19 decides that histories are true",
                             "what the scripts open for writing is moved below a scratch directory"])


def corrupt(rng, d):
    r = rng.choice(d["runs"])
    k = rng.randrange(4)
    if k == 0 and r["kind"] in ("ex", "ml"):
        f = [f for f in r["files"] if f.get("lines")]
        if f:
            l = rng.choice(f[0]["lines"])
            l["v"][rng.randrange(2)] = fxof(val(l["v"][0]) + 7e-4)
            return True
    if k == 1 and r["kind"] in ("ex", "ml") and r["files"]:
        f = [f for f in r["files"] if f.get("lines")]
        if f:
            f[0]["lines"].pop()
            return True
    if k == 2 and r["models"]:
        m = rng.choice(r["models"])
        if r["kind"] in ("ex", "ml", "demo"):
            m["ranks"][0] += 1
            return True
        r["said"][0] = fxof(val(r["said"][0]) + 5.0)
        return True
    if len(d["runs"]) > 1 and len(d["runs"][-1]["files"]) > 1:
        x = d["runs"][-1]
        o = [f for f in x["files"] if "lines" not in f]
        if o:
            o[0]["print"] ^= 1
            return True
    return False


CHECKS = {"C37": c37}
