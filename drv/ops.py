"""Replays calls of the tensor operations, losses and Kruskal/Tucker tensors on the real code."""
import copy
import json

import common
from common import arr, err_name, fxt, intt, np

tf = common.load_tf()
import tensorD.base.ops as ops
from tensorD.base.type import KTensor, TTensor
import tensorD.loss as loss


SPECIAL = ["nan", "inf", "-inf", "-0.0", "0.0"]


def element(k, dt):
    """The k-th element of a type: an injective naming of values by small integers."""
    if dt == "bool":
        return bool(k)
    if dt == "string":
        return (b"", b"\x00", b"\xff\xfe", b"a b")[k] if k < 4 else b"s%d" % k
    if dt.startswith("complex"):
        return complex(k // 3 - 7, (k % 3) * 2 - 1 + k) if k > 3 else (complex("nan"), complex(0.0, -0.0), complex(-0.0, 0.0), complex(0, float("inf")))[k]
    if dt.startswith("float"):
        if k < 5:
            return float(SPECIAL[k])
        t = np.finfo(dt)
        if k < 9:
            return (t.max, t.min, t.tiny, t.smallest_subnormal)[k - 5]
        return (k if k % 2 else -k) * (1 + 2.0 ** -t.nmant) if dt != "float16" else k
    top = np.iinfo(dt).max
    return (k if k % 2 else top - k)


def elements(t, dt):
    vals = [element(k, dt) for k in t["d"]]
    if dt == "string":
        a = np.empty(len(vals), dtype=object)
        a[:] = vals
    else:
        a = np.array([np.dtype(dt).type(v) for v in vals], dtype=dt)
    return a.reshape(t["s"])


def named(a, dt, n):
    """The inverse of elements: values compared by their bytes."""
    by = {}
    key = (lambda v: bytes(v)) if dt == "string" else (lambda v: v.tobytes())
    for k in range(2 if dt == "bool" else n):
        e = elements({"s": [1], "d": [k]}, dt)[0]
        by[key(e)] = k
    if dt == "string":
        flat = [v if isinstance(v, bytes) else str(v).encode() for v in np.asarray(a, dtype=object).ravel().tolist()]
    else:
        flat = [np.dtype(a.dtype).type(v) for v in a.ravel()]
    s = [int(x) for x in np.shape(a)]
    if str(np.asarray(a).dtype) != (dt if dt != "string" else "object"):
        return {"s": s, "d": [], "bad": "element type"}
    d = [by.get(key(v), -1) for v in flat]
    return {"s": s, "d": d} if -1 not in d else {"s": s, "d": [], "bad": "an element is none of those given"}


class Build:
    """Inputs of a job as constants, placeholders or variables-free computed tensors."""

    def __init__(self, job):
        self.dt = job.get("dt", "float32")
        self.form = job.get("form", "const")
        self.coded = job.get("coded", False)
        self.feed = {}
        self.made = {} if job.get("alias") else None

    def t(self, x, dt=None):
        if self.made is None:
            return self.new(x, dt)
        # equal operands are one and the same object
        key = json.dumps([x["s"], x["d"], dt])
        if key not in self.made:
            self.made[key] = self.new(x, dt)
        return self.made[key]

    def new(self, x, dt=None):
        a = elements(x, self.dt) if self.coded else arr(x, dt or self.dt)
        if self.coded and self.dt == "string":
            if self.form == "ph":
                p = tf.placeholder(tf.string, shape=a.shape)
                self.feed[p] = a
                return p
            return tf.constant(a.tolist(), dtype=tf.string, shape=a.shape)
        if self.form == "ph":
            p = tf.placeholder(a.dtype, shape=a.shape)
            self.feed[p] = a
            return p
        return tf.constant(a)


def ax(q, form):
    """A list of axes in one of the documented argument forms."""
    if form == "int" and len(q) == 1:
        return q[0]
    if form == "tuple":
        return tuple(q)
    return list(q)


def back(x):
    return [x] if isinstance(x, int) else list(x)


def build(job):
    """Calls the operation; returns (Build, outputs {field: tensor}, extra record fields)."""
    b = Build(job)
    op = job["op"]
    rec = {}
    if op == "unfold":
        T = b.t(job["T"])
        o = ops.unfold(T) if job.get("deflt") else ops.unfold(T, job["mode"])
        return b, {"out": o}, rec
    if op == "fold":
        M = b.t(job["M"])
        s = tuple(job["s"]) if job.get("tup") else list(job["s"])
        o = ops.fold(M, job["mode"], s)
        return b, {"out": o, "back": ops.unfold(o, job["mode"])}, rec
    if op == "vectorize":
        return b, {"out": ops.vectorize(b.t(job["T"]))}, rec
    if op == "vec2t":
        s = tuple(job["s"]) if job.get("tup") else list(job["s"])
        return b, {"out": ops.vec_to_tensor(b.t({"s": [len(job["T"]["d"])], "d": job["T"]["d"]}), s)}, rec
    if op == "t2mat":
        T = b.t(job["T"])
        r = ax(job["r"], job.get("rf", "list"))
        c = -1 if job["cinf"] else ax(job["c"], job.get("cf", "list"))
        o = ops.t2mat(T, r, c)
        o2 = ops.t2mat(T, r, c)
        rec["rpost"] = back(r)
        rec["cpost"] = back(c) if not job["cinf"] else []
        return b, {"out": o, "out2": o2}, rec
    if op == "mul":
        p, q = ax(job["p"], job.get("pf", "list")), ax(job["q"], job.get("qf", "list"))
        if job.get("alias") and job["p"] == job["q"]:
            q = p
        o = ops.mul(b.t(job["A"]), b.t(job["B"]), p, q)
        rec["ppost"], rec["qpost"] = back(p), back(q)
        return b, {"out": o}, rec
    if op in ("ttm", "ttm_both"):
        T = b.t(job["T"])
        ms = [b.t(m) for m in job["ms"]]
        keep = list(ms)
        arg = ms[0] if job.get("bare") else ms
        kw = {}
        if job.get("tr") or job.get("trexp"):
            kw["transpose"] = bool(job["tr"])
        axv = None
        if op == "ttm_both":
            kw["axis"], kw["skip_matrices_index"] = list(job["axis"]), ax(job["skip"], job.get("axf", "list"))
        elif job["how"] == "axis":
            axv = kw["axis"] = list(job["axis"])
        elif job["how"] == "skip":
            axv = kw["skip_matrices_index"] = ax(job["axis"], job.get("axf", "list"))
        o = ops.ttm(T, arg, **kw)
        rec["same"] = bool(len(ms) == len(keep) and all(x is y for x, y in zip(ms, keep))
                           and (axv is None or back(axv) == job["axis"]))
        return b, {"out": o}, rec
    if op in ("kron", "khatri", "hadamard", "msv"):
        ms = [b.t(m) for m in job["ms"]]
        keep = list(ms)
        kw = {}
        sk = None
        if job["skip"] or job.get("skipexp"):
            sk = kw["skip_matrices_index"] = ax(job["skip"], job.get("axf", "list"))
        if job.get("rev") or job.get("revexp"):
            kw["reverse"] = bool(job["rev"])
        f = {"kron": ops.kron, "khatri": ops.khatri, "hadamard": ops.hadamard, "msv": ops.max_single_value_mul}[op]
        o = f(ms, **kw)
        rec["same"] = bool(len(ms) == len(keep) and all(x is y for x, y in zip(ms, keep))
                           and (sk is None or back(sk) == job["skip"]))
        return b, {"out": o}, rec
    if op in ("inner", "l2", "rmse", "rmsez"):
        f = {"inner": ops.inner, "l2": loss.l2, "rmse": loss.rmse, "rmsez": loss.rmse_ignore_zero}[op]
        return b, {"out": f(b.t(job["A"]), b.t(job["B"]))}, rec
    if op == "xcb":
        return b, {"out": ops.xcb(b.t(job["X"]), b.t(job["C"]), b.t(job["B"]))}, rec
    if op in ("ktensor", "ktensorf", "ttensor", "ttensorf"):
        npf = job.get("npf", False)
        conv = (lambda x: arr(x, b.dt)) if npf else b.t
        Us = [conv(u) for u in job["Us"]]
        if job.get("alias"):
            Us = [next(V for V, v in zip(Us, job["Us"]) if v == u) for u in job["Us"]]
        if op.startswith("k"):
            if "w" in job:
                w = np.array(job["w"], dtype=np.float64).astype(b.dt)
                if job.get("wcol"):
                    w = w.reshape(-1, 1)
                if not job.get("wnp"):
                    w = b.t({"s": list(w.shape), "d": w.ravel().tolist()})
                k = KTensor(Us, w)
            else:
                k = KTensor(Us)
            o = k.extract()
            if job.get("twice"):
                o = k.extract()
            rec["aord"] = int(k.order)
            return b, {"out": o, "aU": list(k.U), "aw": k.lambdas}, rec
        g = arr(job["G"], b.dt) if job.get("npg") else b.t(job["G"])
        t = TTensor(g, Us)
        o = t.extract()
        if job.get("twice"):
            o = t.extract()
        rec["aord"] = int(t.order)
        return b, {"out": o, "aU": list(t.U), "ag": t.g}, rec
    raise AssertionError(op)


FX_OPS = {"inner", "l2", "rmse", "rmsez", "msv", "ktensorf", "ttensorf"}


def record(job, outs, vals, extra):
    r = dict(job)
    if job["op"] in FX_OPS:
        # what the code actually received: the inputs after rounding to the element type
        dt = job.get("dt", "float32")
        for k in ("A", "B", "G"):
            if k in job:
                r[k] = fxt(arr(job[k], dt))
        for k in ("ms", "Us"):
            if k in job:
                r[k] = [fxt(arr(m, dt)) for m in job[k]]
        if "w" in job:
            r["w"] = [common.fx(v) for v in np.array(job["w"], dtype=np.float64).astype(dt).tolist()]
        r["tol"] = common.fx(job["tol"])
        enc = fxt
    elif job.get("coded"):
        n = max(len(job[k]["d"]) for k in ("T", "M") if k in job)
        enc = lambda v: named(v, job["dt"], max(n, 2))
    else:
        enc = intt
    for k, v in vals.items():
        r[k] = [enc(x) for x in v] if isinstance(v, list) else enc(v)
    if "out" in outs:
        r["odt"] = outs["out"].dtype.base_dtype.name
    r["dt"] = job.get("dt", "float32")
    r.update(extra)
    return r


def run_batch(jobs, emit):
    g = tf.Graph()
    with g.as_default():
        built = []
        for j in jobs:
            try:
                with common.quiet():
                    b, outs, extra = build(j)
                built.append((j, b, outs, extra))
            except Exception as e:
                emit(record(dict(j, err=err_name(e), msg=str(e)[:200]), {}, {}, {}))
        with tf.Session(graph=g) as s:
            feed = {}
            for _, b, _, _ in built:
                feed.update(b.feed)
            try:
                vals = s.run([o for _, _, o, _ in built], feed_dict=feed)
            except Exception:
                vals = []
                for j, b, o, x in built:
                    try:
                        vals.append(s.run(o, feed_dict=b.feed))
                    except Exception as e:
                        vals.append(e)
            for (j, b, o, x), v in zip(built, vals):
                if isinstance(v, Exception):
                    emit(record(dict(j, err=err_name(v), msg=str(v)[:200]), {}, {}, {}))
                else:
                    emit(record(j, o, v, x))


def run_all(jobs, emit):
    for k in range(0, len(jobs), 60):
        run_batch(jobs[k:k + 60], emit)


if __name__ == "__main__":
    common.main(run_all)
