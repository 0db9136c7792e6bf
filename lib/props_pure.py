"""C38: calls change nothing but what they return."""
import random
from props_obj import controls
from props_train import fxof, val

FAMILIES = dict(tensors=28, tf=11, np=12, models=7, data=3)


def shape(rng, fam):
    if fam in ("models", "data"):
        return [rng.randint(2, 3) for _ in range(3)]
    if fam == "tensors":
        return [rng.randint(2, 4) for _ in range(rng.choice([2, 3, 3, 3, 4]))]
    return [rng.randint(2, 5) for _ in range(3)]


def c38(ctx):
    rng = random.Random("C38-%s" % ctx.seed)
    ctx.model_check("Purity", "Purity-big" if ctx.thorough else "Purity-ok", note="every history of calls and the caller's own writes leaves all else alone")
    for b, exp in (("inplace", "Untouched"), ("alias", "Kept"), ("memo", "Functional"), ("grow", "Functional"), ("disturb", "Calm")):
        ctx.model_check("Purity", "Purity-" + b, expect=exp)
    gen = ctx.generate("PurityGen", "PurityGen", workers=1)
    gen.sort()
    jobs, turn = [], {}
    big = 4 if ctx.thorough else 1
    for fam, count in (("tensors", 560), ("tf", 165), ("np", 180), ("models", 70), ("data", 40)):
        for k in range(count * big):
            s = shape(rng, fam)
            t = s if rng.random() < 0.7 else shape(rng, fam)
            i = turn[fam] = turn.get(fam, -1) + 1
            jobs.append(dict(fam=fam, ev=rng.choice(gen), f=[i, i + rng.randint(0, FAMILIES[fam])], n=[s, t], form=rng.choice(["tensor", "array"]), twin=rng.random() < 0.6,
                             seeds=[rng.randint(1, 10 ** 6) for _ in range(2)]))
    rng.shuffle(jobs)
    alone = []
    for n, j in enumerate(jobs):
        j["id"] = n + 1
        alone.append(dict(j, ev=[e for e in j["ev"][:-1] if e[0] == "write"] + j["ev"][-1:]))
    ctx.samples = jobs[:3]
    recs = ctx.drive("purity", jobs, timeout=1500 if ctx.thorough else 500)
    rng.shuffle(alone)
    ref = {r["id"]: r for r in ctx.drive("purity", alone, timeout=1500 if ctx.thorough else 500)}
    for r in recs:
        for e in r["ev"]:
            e.pop("msg", None)
        q = ref.get(r["id"])
        if r["ev"] and q and q["ev"] and r["ev"][-1].get("fn") and not r["ev"][-1].get("draws"):
            e = q["ev"][-1]
            r["alone"] = dict(err=e["err"]) if "err" in e else dict(out=e["out"])
    v = ctx.judge("PurityTrace", recs)
    ctx.log("%d histories, %d calls" % (len(recs), sum(1 for r in recs for e in r["ev"] if e["op"] == "call")))
    controls(ctx, "PurityTrace", [r for r in recs if r["id"] not in v and r["ev"]], rng, corrupt, n=12, done=False)
    return dict(level="model_checking",
                rule="histories of four events (calls of two functions on two sets of arguments, overwriting of arguments by the caller) generated from Purity, over five families: tensor operations, "
                     "both PITF operator sets, all decompositions, readers and generators; every object is fingerprinted after each event; the last call is repeated alone in another process",
                assumptions=["fingerprints are 30-bit checksums", "functions that draw random numbers are only asked to leave arguments and earlier results alone"])


def corrupt(rng, d):
    es = [e for e in d["ev"] if e["op"] == "call"]
    k = rng.randrange(3)
    if k == 0:
        e = rng.choice(es)
        e["prints"][rng.randrange(len(d["start"]))] ^= 1
        return True
    if k == 1:
        e = rng.choice(es)
        e["globs"] ^= 1
        return True
    e = d["ev"][-1]
    if not e.get("out") or "alone" not in d:
        return False
    t = rng.choice(e["out"])
    if not t["d"] or any(len(x) == 1 and x[0] > 1 for x in t["d"]):
        return False
    q = rng.randrange(len(t["d"]))
    t["d"][q] = fxof(val(t["d"][q]) + 0.05 * max(1.0, max(abs(val(x)) for x in t["d"])))
    return True


CHECKS = {"C38": c38}
