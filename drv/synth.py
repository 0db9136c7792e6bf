"""Runs the synthetic data generators; shows the factors of the Kruskal or Tucker tensor they make, where they make one."""
import common
from common import err_name, fxt, np

tf = common.load_tf()
import tensorD.base.type as ty
import tensorD.demo.DataGenerator as dg

SEEN = []


def spy(cls, kind):
    init = cls.__init__

    def wrapped(self, *a, **k):
        SEEN.append((kind, a, k))
        return init(self, *a, **k)
    cls.__init__ = wrapped


spy(ty.KTensor, "cp")
spy(ty.TTensor, "tucker")


def call(job, level, seed):
    np.random.seed(seed)
    N = tuple(job["N"]) if job.get("tup") else list(job["N"])
    kw = {} if level is None else {"max_noise": level}
    with tf.Graph().as_default(), common.quiet():
        if job["kind"] == "cp":
            return dg.synthetic_data_cp(N, job["R"], **kw)
        return dg.synthetic_data_tucker(N, tuple(job["ranks"]) if job.get("tup") else list(job["ranks"]), **kw)


def factors(kind):
    """The factors the noiseless run showed, or None."""
    if len(SEEN) != 1 or SEEN[0][0] != kind:
        return None
    a, k = SEEN[0][1], SEEN[0][2]
    try:
        if kind == "cp":
            f = a[0] if a else k["factors"]
            if len(a) > 1 or k.get("lambdas") is not None:
                return None
            return dict(fac=[fxt(np.asarray(m)) for m in f])
        core = a[0] if a else k["core"]
        f = a[1] if len(a) > 1 else k["factors"]
        return dict(core=fxt(np.asarray(core)), fac=[fxt(np.asarray(m)) for m in f])
    except Exception:
        return None


def run_all(jobs, emit):
    for j in jobs:
        rec = {k: v for k, v in j.items() if k not in ("tup",)}
        rec["runs"] = []
        try:
            for s in j["seeds"]:
                del SEEN[:]
                r = dict(D0=fxt(call(j, 0.0 if s % 2 else 0, s)))
                r.update(factors(j["kind"]) or {})
                r["D1"] = fxt(call(j, j["level"], s))
                rec["runs"].append(r)
        except Exception as ex:
            rec["err"], rec["msg"] = err_name(ex), str(ex)[:200]
        rec.pop("level")
        emit(rec)


if __name__ == "__main__":
    common.main(run_all)
