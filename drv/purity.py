"""Replays histories of calls on objects the caller keeps, and fingerprints everything after each."""
import contextlib, io, os, random, shutil, tempfile, zlib
import common
from common import err_name, fxt, np

tf = common.load_tf()
import tensorD.base.ops as ops
import tensorD.base.pitf_ops as pt
import tensorD.base.pitf_ops_numpy as pn
import tensorD.loss as loss
from tensorD.base.type import DTensor, KTensor, TTensor
from tensorD.dataproc.provider import Provider
from tensorD.dataproc.reader import TensorReader
from tensorD.demo import DataGenerator as gen
from tensorD.factorization.cp import CP_ALS
from tensorD.factorization.env import Environment
from tensorD.factorization.ncp import NCP_BCU
from tensorD.factorization.ntucker import NTUCKER_BCU
from tensorD.factorization.pitf import PITF
from tensorD.factorization.pitf_numpy import PITF_np
from tensorD.factorization.tucker import HOOI, HOSVD


class File:
    def __init__(self, path):
        self.path = path


def crc(b, start=0):
    return zlib.crc32(b, start) & 0x3fffffff


def deep(o):
    """A text that names the value of an object."""
    if isinstance(o, (np.ndarray, np.generic)):
        a = np.ascontiguousarray(o)
        return "a%s%s%d" % (a.dtype, a.shape, crc(a.tobytes()))
    if isinstance(o, (tf.Tensor, tf.Operation, tf.Variable)):
        return "t" + o.name
    if isinstance(o, (list, tuple)):
        return type(o).__name__ + "[" + ",".join(deep(x) for x in o) + "]"
    if isinstance(o, dict):
        return "{" + ",".join(str(k) + ":" + deep(o[k]) for k in sorted(o, key=str)) + "}"
    if isinstance(o, File):
        with open(o.path, "rb") as f:
            return "f%d" % crc(f.read())
    if o is None or isinstance(o, (bool, int, float, str, bytes)):
        return repr(o)
    if hasattr(o, "__dict__"):
        return type(o).__name__ + deep(vars(o))
    return type(o).__name__


def pr(o):
    return crc(deep(o).encode())


def chance():
    s, p = np.random.get_state(), random.getstate()
    return crc(repr((s[1].tolist(), s[2:], p)).encode())


def settings():
    o = dict(np.get_printoptions())
    o.pop("formatter", None)
    return crc(repr((sorted(np.geterr().items()), sorted(o.items(), key=str), os.getcwd(), sorted(os.environ.items()), id(tf.get_default_graph()),
                     tf.get_default_graph().seed, tf.get_default_session() is None)).encode())


# ---- what the caller makes -----------------------------------------------------
def ints(r, *s):
    a = r.randint(-4, 5, size=s)
    a[a == 0] = 1
    return a.astype(np.float32)


def tensors(r, v, n, form):
    """Arguments of the tensor operations, for a tensor of shape n; r chooses the structure, v the values."""
    t = (lambda a: tf.constant(a)) if form == "tensor" else (lambda a: a)
    k = len(n)
    perm = [int(x) for x in r.permutation(k)]
    cut = r.randint(1, k)
    ax = [int(x) for x in r.choice(k, size=r.randint(1, k + (k > 2)), replace=False)]
    m = int(r.randint(k))
    size = int(np.prod(n))
    U = [ints(v, r.randint(1, 4), q) for q in n]
    b = dict(T=tf.constant(ints(v, *n)), S=tf.constant(ints(v, *n)), shape=list(n), vec=tf.constant(ints(v, size)), M=tf.constant(ints(v, n[m], size // n[m])),
             m=m, r=perm[:cut], c=perm[cut:], ax=ax, ax2=list(ax), U=[tf.constant(u) for u in U], Ut=[tf.constant(u.T.copy()) for u in U],
             Ua=[tf.constant(U[q]) for q in ax], F=[t(ints(v, q, 2)) for q in n], lam=t(ints(v, 2)), H=[tf.constant(ints(v, 3, 2)) for _ in n],
             K=[tf.constant(ints(v, 2, 2)) for _ in range(min(3, k))], G=t(ints(v, *([2] * k))), sk=sorted(int(x) for x in r.choice(k, size=r.randint(1, k), replace=False)),
             FT=[tf.constant(ints(v, q, 2)) for q in n])
    if k == 3:
        b["C"], b["B"] = tf.constant(ints(v, n[2], 2)), tf.constant(ints(v, n[1], 2))
    return b


def pitf(r, v, n, impl):
    t = tf.constant if impl == "tf" else (lambda a: a)
    z = "float32" if impl == "tf" else "float64"
    k = r.randint(2, 7)
    as_list = r.rand() < 0.5
    spl = [v.randint(0, q, size=k) for q in n]
    return dict(spl=[[int(x) for x in q] for q in spl] if as_list else [q.astype(np.int32) for q in spl], n=list(n) if r.rand() < 0.7 else tuple(n), k=int(k),
                X=t(ints(v, n[0], n[1]).astype(z)), Y=t(ints(v, n[1], n[2]).astype(z)), Z=t(ints(v, n[2], n[0]).astype(z)), T=t(ints(v, *n).astype(z)),
                vec=t(ints(v, k).astype(z)), tau=float(r.choice([0, 0.5, 2.0])), x=t(ints(v, 4).astype(z)), t=float(r.choice([-30.0, 0.5, 30.0])), dim=int(r.randint(3)))


def models(r, n):
    X = np.abs(ints(r, *n)).astype(r.choice(["float32", "float64"]))
    R = [min(2, q) for q in n]
    v = int(r.choice([-1, 1, 2]))
    return dict(X=X, steps=int(r.randint(1, 5)), cp=CP_ALS.CP_Args(rank=1, validation_internal=v), ncp=NCP_BCU.NCP_Args(rank=int(r.randint(1, 5 if r.rand() < 0.8 else 10)), validation_internal=v),
                nt=NTUCKER_BCU.NTUCKER_Args(ranks=[int(r.randint(1, 5 if r.rand() < 0.8 else 10)) for _ in n], validation_internal=v), hosvd=HOSVD.HOSVD_Args(ranks=list(R)),
                hooi=HOOI.HOOI_Args(ranks=list(R), validation_internal=v), key=[int(r.randint(q)) for q in n],
                pitf=PITF.PITF_Args(rank=1, delt=0.5, tao=1.0, sample_num=4, validation_internal=v), pnp=PITF_np.PITF_np_Args(rank=1, delt=0.5, tao=1.0, sample_num=4, steps=3))


def data(r, n, root):
    p = os.path.join(root, "d%d.csv" % r.randint(10 ** 9))
    b = dict(file=File(p), shape=list(n), N=list(n), ranks=[int(r.randint(1, 5)) for _ in n], R=int(r.randint(1, 5)), noise=float(r.choice([0, 0.1])))
    put(b, r)
    return b


def put(b, r):
    n = b["shape"]
    at = [[int(x) for x in q] for q in np.argwhere(r.rand(*n) < 0.6)] or [[0] * len(n)]
    with open(b["file"].path, "w") as f:
        for q in at:
            f.write(",".join(str(x) for x in q) + ",%d\n" % r.randint(1, 9))


# ---- what it calls: name -> (function, arguments, draws) --------------------------
def fit(cls, key, names):
    def f(b):
        p = Provider()
        X = b["X"]
        p.full_tensor = (lambda: tf.constant(X.astype(np.float32))) if cls is PITF else lambda: X
        env = Environment(p, summary_path=tempfile.mkdtemp())
        m = cls(env)
        h = m.build_model(b[key]) if key != "none" else None
        h = m.train(b["steps"]) if cls is not HOSVD else m.train()
        res = [list(h)] if h is not None else []
        for a in names:
            v = getattr(m, a)
            res.append(v() if callable(v) else v)
        if key in ("cp", "hosvd", "hooi", "nt", "ncp"):
            res.append(m.predict(*b["key"]))
        return res
    return f


def numpy_pitf(b):
    env = Environment(Provider(), summary_path=tempfile.mkdtemp())
    return list(PITF_np(env).exact_recovery(b["pnp"], b["X"]))


def read(b):
    r = TensorReader(b["file"].path)
    r.read(b["shape"])
    return [r.full_data]


FN = dict(
    tensors={
        "unfold": (lambda b: ops.unfold(b["T"], b["m"]), "T m", False),
        "fold": (lambda b: ops.fold(b["M"], b["m"], b["shape"]), "M m shape", False),
        "vectorize": (lambda b: ops.vectorize(b["T"]), "T", False),
        "vec_to_tensor": (lambda b: ops.vec_to_tensor(b["vec"], b["shape"]), "vec shape", False),
        "t2mat": (lambda b: ops.t2mat(b["T"], b["r"], b["c"]), "T r c", False),
        "t2mat_rest": (lambda b: ops.t2mat(b["T"], b["r"], -1), "T r", False),
        "mul": (lambda b: ops.mul(b["T"], b["S"], b["ax"], b["ax2"]), "T S ax ax2", False),
        "ttm": (lambda b: ops.ttm(b["T"], b["U"]), "T U", False),
        "ttm_axis": (lambda b: ops.ttm(b["T"], b["Ua"], axis=b["ax"]), "T Ua ax", False),
        "ttm_trans": (lambda b: ops.ttm(b["T"], b["Ut"], transpose=True), "T Ut", False),
        "ttm_skip": (lambda b: ops.ttm(b["T"], b["U"], skip_matrices_index=b["sk"]), "T U sk", False),
        "inner": (lambda b: ops.inner(b["T"], b["S"]), "T S", False),
        "hadamard": (lambda b: ops.hadamard(b["H"], b["sk"]), "H sk", False),
        "kron": (lambda b: ops.kron(b["K"], reverse=True), "K", False),
        "kron_fwd": (lambda b: ops.kron(b["K"]), "K", False),
        "khatri": (lambda b: ops.khatri(b["FT"], b["sk"], True), "FT sk", False),
        "khatri_fwd": (lambda b: ops.khatri(b["FT"]), "FT", False),
        "msv": (lambda b: ops.max_single_value_mul(b["H"], b["sk"]), "H sk", False),
        "xcb": (lambda b: ops.xcb(b["T"], b["C"], b["B"]), "T C B", False),
        "l2": (lambda b: loss.l2(b["T"], b["S"]), "T S", False),
        "rmse": (lambda b: loss.rmse(b["T"], b["S"]), "T S", False),
        "rmsez": (lambda b: loss.rmse_ignore_zero(b["T"], b["S"]), "T S", False),
        "ktensor": (lambda b: KTensor(b["F"], b["lam"]).extract(), "F lam", False),
        "ktensor1": (lambda b: KTensor(b["F"]).extract(), "F", False),
        "ttensor": (lambda b: TTensor(b["G"], b["F"]).extract(), "G F", False),
        "d_t2mat": (lambda b: DTensor(b["T"]).t2mat(b["r"], b["c"]), "T r c", False),
        "d_mul": (lambda b: DTensor(b["T"]).mul(DTensor(b["S"]), b["ax"], b["ax2"]), "T S ax ax2", False),
        "d_fold": (lambda b: DTensor.fold(b["M"], b["m"], b["shape"]), "M m shape", False),
    },
    tf={
        "Pomega_tensor": (lambda b: pt.Pomega_tensor(b["spl"], b["T"], b["k"]), "spl T k", False),
        "Pomega_mat": (lambda b: pt.Pomega_mat(b["spl"], b["X"], b["n"], b["k"], 0), "spl X n k", False),
        "Pomega_Pair": (lambda b: pt.Pomega_Pair(b["spl"], b["X"], b["Y"], b["Z"], b["n"], b["k"]), "spl X Y Z n k", False),
        "adjoint": (lambda b: pt.adjoint_operator(b["spl"], b["vec"], b["n"], b["k"], b["dim"]), "spl vec n k dim", False),
        "centralization": (lambda b: pt.centralization(b["X"]), "X", False),
        "shrink": (lambda b: pt.shrink(b["X"], b["tau"]), "X tau", False),
        "shrink_c": (lambda b: pt.shrink(b["X"], b["tau"], mode="complicated"), "X tau", False),
        "cone": (lambda b: list(pt.cone_projection_operator(b["x"], b["t"])), "x t", False),
        "subspace": (lambda b: pt.subspace(b["n"][:2], 1, "A"), "n", True),
        "sample3D": (lambda b: list(pt.sample3D_rule(b["n"], b["k"])), "n k", True),
        "rule4mat": (lambda b: list(pt.sample_rule4mat(b["n"], 1, 1, 1)), "n", True),
    },
    np={
        "Pomega_tensor": (lambda b: pn.Pomega_tensor(b["spl"], b["T"], b["n"], b["k"]), "spl T n k", False),
        "Pomega_mat": (lambda b: pn.Pomega_mat(b["spl"], b["Y"], b["n"], b["k"], 1), "spl Y n k", False),
        "Pomega_Pair": (lambda b: pn.Pomega_Pair(b["spl"], b["X"], b["Y"], b["Z"], b["n"], b["k"]), "spl X Y Z n k", False),
        "adjoint": (lambda b: pn.adjoint_operator(b["spl"], b["vec"], b["n"], b["k"], b["dim"]), "spl vec n k dim", False),
        "centralization": (lambda b: pn.centralization(b["X"]), "X", False),
        "SVT": (lambda b: pn.SVT(b["Z"], b["tau"])[1], "Z tau", False),
        "shrink": (lambda b: pn.shrink(b["X"], b["tau"]), "X tau", False),
        "shrink_c": (lambda b: pn.shrink(b["X"], b["tau"], mode="complicated"), "X tau", False),
        "cone": (lambda b: [np.array(q, dtype=np.float64) for q in pn.cone_projection_operator(b["x"], b["t"])], "x t", False),
        "subspace": (lambda b: pn.subspace(b["n"][:2], 1, "B"), "n", True),
        "sample3D": (lambda b: list(pn.sample3D_rule(b["n"], b["k"])), "n k", True),
        "rule4mat": (lambda b: list(pn.sample_rule4mat(b["n"], 1, 1, 1, b["k"])), "n k", True),
    },
    models={
        "cp": (fit(CP_ALS, "cp", ["factors", "lambdas", "full"]), "X cp steps key", True),
        "ncp": (fit(NCP_BCU, "ncp", ["factors", "lambdas", "full"]), "X ncp steps key", True),
        "nt": (fit(NTUCKER_BCU, "nt", ["factors", "core", "full"]), "X nt steps key", True),
        "hosvd": (fit(HOSVD, "hosvd", ["core", "full"]), "X hosvd key", False),
        "hooi": (fit(HOOI, "hooi", ["core", "full"]), "X hooi steps key", False),
        "pitf": (fit(PITF, "pitf", ["full"]), "X pitf steps", True),
        "pnp": (numpy_pitf, "X pnp", True),
    },
    data={
        "read": (read, "file shape", False),
        "synth_cp": (lambda b: gen.synthetic_data_cp(b["N"], b["R"], b["noise"]), "N R noise", True),
        "synth_tucker": (lambda b: gen.synthetic_data_tucker(b["N"], b["ranks"], b["noise"]), "N ranks noise", True),
    })


def make(fam, r, v, n, form, root):
    if fam == "tensors":
        return tensors(r, v, n, form)
    if fam in ("tf", "np"):
        return pitf(r, v, n, fam)
    if fam == "models":
        return models(v, n)
    return data(v, n, root)


def write(fam, b, r):
    """The caller overwrites what it can in place; returns the names of what it wrote."""
    own = []
    for k, o in b.items():
        if isinstance(o, np.ndarray):
            v = np.abs(ints(r, *o.shape)) if fam == "models" else ints(r, *o.shape)
            o[...] = v
            own.append(k)
        elif isinstance(o, list) and k in ("r", "c") and len(o) > 1:
            o.reverse()
            own.append(k)
        elif isinstance(o, list) and o and isinstance(o[0], tf.Tensor):
            q = int(r.randint(len(o)))
            o[q] = tf.constant(ints(r, *[int(d) for d in o[q].get_shape()]))
            own.append(k)
        elif isinstance(o, list) and o and isinstance(o[0], np.ndarray) and k == "F":
            for a in o:
                a[...] = ints(r, *a.shape)
            own.append(k)
        elif k == "spl":
            for m, q in enumerate(o):
                q[int(r.randint(len(q)))] = int(r.randint(b["n"][m]))
            own.append(k)
        elif isinstance(o, File):
            put(b, r)
            own.append(k)
    return own


def flat(o):
    """The arrays and graph tensors of a result, in order."""
    if isinstance(o, DTensor):
        return [o.T]
    if isinstance(o, (list, tuple)):
        return [x for q in o for x in flat(q)]
    return [o]


def values(res, sess):
    out = []
    for x in flat(res):
        if isinstance(x, (tf.Tensor, tf.Variable)):
            x = sess.run(x)
        out.append(fxt(np.asarray(x, dtype=np.float64)))
    return out


def history(job, root):
    fam = job["fam"]
    g = tf.Graph()
    rec = dict(id=job["id"], ev=[], again=[])
    with g.as_default():
        rs = [np.random.RandomState(s) for s in job["seeds"]]
        twin = job["n"][0] == job["n"][1] and job["twin"]       # same structure, other values
        bs = [make(fam, np.random.RandomState(job["seeds"][0] + 1) if twin else r, r, n, job["form"], root) for r, n in zip(rs, job["n"])]
        np.random.seed(job["seeds"][0] % 1000)
        names = [(i, k) for i, b in enumerate(bs) for k in b]
        pool = [bs[i][k] for i, k in names]
        keep = []
        rec["start"] = [pr(o) for o in pool]
        with tf.Session(graph=g) as sess:
            rec["glob"], rec["globs"] = chance(), settings()
            for op, f, a in job["ev"]:
                b = bs[a - 1]
                if op == "write":
                    own = write(fam, b, rs[a - 1])
                    rec["ev"].append(dict(op=op, own=[p + 1 for p, (i, k) in enumerate(names) if i == a - 1 and k in own], prints=[pr(o) for o in pool], fn=""))
                    continue
                every = sorted(FN[fam])
                fn = every[job["f"][f - 1] % len(every)]
                if fn == "xcb" and "C" not in b:
                    fn = "unfold"
                call, args, draws = FN[fam][fn]
                e = dict(op=op, fn=fn, draws=draws, argp=[pr(b[k]) for k in args.split()])
                rec["ev"].append(e)
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        res = call(b)
                    e["glob"], e["globs"] = chance(), settings()
                    kept = res if fam in ("models", "np") else None
                    if kept is not None:
                        pool.append(kept)
                    e["prints"] = [pr(o) for o in pool]
                    e["out"] = [] if draws else values(res, sess)
                    if not draws and any(isinstance(x, tf.Tensor) for x in flat(res)):
                        keep.append((len(rec["ev"]), res))
                except Exception as ex:
                    e.update(err=err_name(ex), msg=str(ex)[:200])
                    break
            for k, res in keep:
                rec["again"].append(dict(ev=k, out=values(res, sess)))
    return rec


def run_all(jobs, emit):
    root = tempfile.mkdtemp(prefix="pure-")
    for job in jobs:
        try:
            rec = history(job, root)
        except Exception as e:
            rec = dict(id=job["id"], err=err_name(e), msg=str(e)[:200], ev=[], again=[], start=[])
        emit(rec)
    shutil.rmtree(root, True)


if __name__ == "__main__":
    common.main(run_all)
