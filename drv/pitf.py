"""Replays calls of the PITF operators, numpy and TensorFlow versions."""
import common
from common import arr, err_name, fx, fxt, np

tf = common.load_tf()
import tensorD.base.pitf_ops as pt
import tensorD.base.pitf_ops_numpy as pn


def sizes(job):
    n = job["n"]
    f = job.get("nf", "tuple")
    if f == "const" and job["impl"] == "tf":
        return tf.constant(n)
    return tuple(n) if f == "tuple" else list(n)


def lists(job):
    f = job.get("lf", "list")
    if f == "np":
        return [np.array(q, dtype=np.int32) for q in job["spl"]]
    if f == "tensor" and job["impl"] == "tf":
        return [tf.constant(q, dtype=tf.int32) for q in job["spl"]]
    return [list(q) for q in job["spl"]]


def laid(a, how):
    """The same values in another memory layout or integer element type."""
    if how == "F":
        return np.asfortranarray(a)
    if how == "stride":
        big = np.full([2 * n + 1 for n in a.shape], np.nan)
        v = big[tuple(slice(1, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == "back":
        i = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[i])[i]
    if how == "int" and np.array_equal(a, np.rint(a)) and np.max(np.abs(a), initial=0) < 2 ** 31:
        return a.astype(np.int64)
    if how == "ro":
        a = a.copy()
        a.setflags(write=False)
    return a


def mat(job, x):
    if job["impl"] == "np":
        return laid(arr(x, "float64"), job.get("lay"))
    a = arr(x, job.get("dt", "float32"))
    if job.get("form") == "ph":
        p = tf.placeholder(a.dtype, shape=a.shape)
        job["_feed"][p] = a
        return p
    return tf.constant(a)


def build(job):
    """Returns (tensors or arrays {field: value}, extra record fields)."""
    m = pn if job["impl"] == "np" else pt
    op = job["op"]
    if op in ("sample", "adjoint"):
        n, spl = sizes(job), lists(job)
        k = len(job["spl"][0])
        if job["refuse"]:
            sel = job["sel"]
            try:
                if op == "sample":
                    m.Pomega_mat(spl, mat(job, job["M"][0]), n, k, sel) if sel != "none" else m.Pomega_mat(spl, mat(job, job["M"][0]), n, k)
                else:
                    m.adjoint_operator(spl, mat(job, job["vec"]), n, k, sel) if sel != "none" else m.adjoint_operator(spl, mat(job, job["vec"]), n, k)
                return {}, dict(raised="")
            except Exception as ex:
                return {}, dict(raised=err_name(ex))
        if op == "sample":
            Ms = [mat(job, x) for x in job["M"]]
            T = mat(job, job["T"])
            t = m.Pomega_tensor(spl, T, n, k) if m is pn else m.Pomega_tensor(spl, T, k)
            kw = job.get("kw")
            r = [m.Pomega_mat(spl, Ms[d], n, k, dim=d) if kw else m.Pomega_mat(spl, Ms[d], n, k, d) for d in range(3)]
            return dict(tensor=t, mats=r, pair=m.Pomega_Pair(spl, Ms[0], Ms[1], Ms[2], n, k)), {}
        v = mat(job, job["vec"])
        return dict(out=[m.adjoint_operator(spl, v, n, k, d) for d in range(3)]), {}
    if op == "shrink":
        A = mat(job, job["A"])
        tau = job["tauv"]
        if job.get("tauform") == "const" and m is pt:
            tau = tf.constant(tau, dtype=tf.float32)
        c = m.centralization(A)
        if m is pn:
            U, s, vh = m.SVT(A, tau)
            V = vh.T
        else:
            s, U, V = m.SVT(A, tau)
        return dict(center=c, U=U, sv=s, V=V, normal=m.shrink(A, tau, mode="normal") if job.get("kw") else m.shrink(A, tau),
                    compl=m.shrink(A, tau, mode="complicated")), {}
    if op == "factors":
        n, r = sizes(job), job["r"]
        runs = []
        for s in job["seeds"]:
            if m is pn:
                np.random.seed(s)
                u, w = m.generate((n[0], n[1]), r[0])
                runs.append(dict(m=list(m.sample_rule4mat(n, r[0], r[1], r[2], 5)), u=u, w=w))
            else:
                u, w = m.generate((n[0], n[1]), r[0])
                runs.append(dict(m=list(m.sample_rule4mat(n, r[0], r[1], r[2])), u=u, w=w))
        return dict(runs=runs), {}
    if op == "draw":
        if m is pn:
            np.random.seed(job["seed"])
        return dict(spl=list(m.sample3D_rule(sizes(job), job["num"]))), {}
    if op == "cone":
        x = mat(job, job["xv"])
        t = job["tv"]
        if m is pt and job.get("tauform") == "const":
            t = tf.constant(t) if isinstance(t, int) else tf.constant(t, dtype=tf.float32)
        a, b = m.cone_projection_operator(x, t)
        return dict(ox=a, ot=b), {}
    raise AssertionError(op)


def enc(field, v):
    if isinstance(v, dict):
        return {k: enc(k, x) for k, x in v.items()}
    if field == "ot":
        return fx(np.asarray(v))
    if field == "spl":
        return [[int(x) if int(x) == x else -1 for x in np.asarray(q).ravel().tolist()] for q in v]
    if isinstance(v, list):
        return [enc("", x) for x in v]
    return fxt(v)


def run_batch(jobs, emit):
    g = tf.Graph()
    with g.as_default():
        tf.set_random_seed(jobs[0]["id"])
        out = []
        for j in jobs:
            j["_feed"] = {}
            rec = {k: v for k, v in j.items() if k not in ("_feed", "xv", "tv", "tauv", "seeds", "seed", "form", "nf", "lf", "kw", "tauform", "lay")}
            try:
                with common.quiet():
                    o, extra = build(j)
                rec.update(extra)
                out.append((j, rec, o))
            except Exception as ex:
                rec["err"], rec["msg"] = err_name(ex), str(ex)[:150]
                out.append((j, rec, None))
        with tf.Session(graph=g) as s:
            for j, rec, o in out:
                dt = j.get("dt", "float64")
                for q in ("vec", "A", "T"):
                    if q in rec:
                        rec[q] = fxt(arr(rec[q], dt))
                if "M" in rec:
                    rec["M"] = [fxt(arr(x, dt)) for x in rec["M"]]
                if o:
                    try:
                        if j["impl"] == "tf":
                            o = s.run(o, feed_dict=j["_feed"])
                        rec.update({k: enc(k, v) for k, v in o.items()})
                    except Exception as ex:
                        rec["err"], rec["msg"] = err_name(ex), str(ex)[:150]
                emit(rec)


def run_all(jobs, emit):
    for k in range(0, len(jobs), 25):
        run_batch(jobs[k:k + 25], emit)


if __name__ == "__main__":
    common.main(run_all)
