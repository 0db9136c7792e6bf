"""Runs PITF training, numpy and TensorFlow versions, and records the multipliers after each step."""
import contextlib, glob, io, os, re, shutil, tempfile
import common
from common import arr, err_name, fx, fxt, np
import train as tr

tf = common.load_tf()
from tensorD.factorization.env import Environment
from tensorD.factorization.pitf_numpy import PITF_np
from tensorD.factorization.pitf import PITF


class Watch:
    """Looks at the multipliers after each run of the session."""

    def __init__(self, num):
        self.num, self.on, self.ys = num, False, []

    def before(self, sess, fetches, feed):
        pass

    def after(self, sess, fetches, feed):
        if not self.on:
            return
        vs = [v for v in sess.graph.get_collection(tf.GraphKeys.GLOBAL_VARIABLES)
              if v.get_shape().as_list() == [self.num] and v.dtype.base_dtype.is_floating and v in self.mine]
        for v in vs[:1]:
            try:
                y = sess.run(v)
            except Exception:
                return
            if not self.ys or not np.array_equal(self.ys[-1], y):
                self.ys.append(np.array(y))


LINE = re.compile(r"step=(\d+), erate=([-+.\w]+), RMSE=([-+.\w]+)")


def witness(n, spl, y, last):
    """Singular bases of the centred adjoints (verified by the specification, never trusted)."""
    out = []
    for r, q in ((0, 1), (1, 2), (2, 0)):
        A = np.zeros((n[r], n[q]))
        seq = range(len(y)) if last else range(len(y) - 1, -1, -1)
        for i in seq:
            A[spl[r][i], spl[q][i]] = y[i]
        U, s, vh = np.linalg.svd(A - A.mean(axis=0), full_matrices=False)
        out.append(dict(U=fxt(U), V=fxt(vh.T)))
    return out


def witnesses(job, X, ys):
    """Per step, from positions read off the first multipliers."""
    n = X.shape
    delta = job["args"]["delt"] * job["args"]["sample_num"] / np.sqrt(X.size)
    try:
        pos = [int(np.argmin(np.abs(X.ravel() * delta - a))) for a in ys[0]]
        spl = [np.array(q) for q in np.unravel_index(pos, n)]
    except Exception:
        return [[]] * len(ys)
    w = []
    for k in range(len(ys)):
        y = np.zeros(len(ys[0])) if k == 0 else np.asarray(ys[k - 1], dtype=np.float64)
        if not np.all(np.isfinite(y)) or len(y) != len(pos):
            y = np.zeros(len(pos))
        w.append([witness(n, spl, y, True)] + ([witness(n, spl, y, False)] if job["impl"] == "tf" else []))
    return w


def head(job, X):
    a = job["args"]
    return dict(id=job["id"], impl=job["impl"], n=list(X.shape), X=fxt(X), num=a["sample_num"], delt=fx(a["delt"]), tau=fx(a["tao"]),
                steps=job["steps"], lines=[], sums=[], Y=[], wit=[])


def run_np(job):
    X = arr(job["X"], "float64")
    rec = head(job, X)
    ys = []
    try:
        for k in range(1, job["steps"] + 1):
            with tf.Graph().as_default(), common.quiet():
                np.random.seed(job["seed"])
                m = PITF_np(Environment(tr.ArrayProvider(X), summary_path=os.path.join(os.getcwd(), "s")))
                y, a, b, c, It, E, R = m.exact_recovery(PITF_np.PITF_np_Args(steps=k, **job["args"]), X.copy())
            ys.append(np.array(y))
        rec.update(It=[int(x) for x in It], E=[fx(x) for x in E], R=[fx(x) for x in R], mats=[fxt(a), fxt(b), fxt(c)])
    except Exception as ex:
        rec["err"], rec["msg"] = err_name(ex), str(ex)[:200]
        return [rec]
    rec["Y"] = [fxt(y) for y in ys]
    rec["wit"] = witnesses(job, X, ys)
    return [rec]


def run_tf(job):
    X = arr(job["X"], "float32")
    tmp = tempfile.mkdtemp(prefix="pitf-")
    recs = []
    g = tf.Graph()
    try:
        with g.as_default():
            tf.set_random_seed(job["seed"])
            w = Watch(job["args"]["sample_num"])
            env = tr.SpyEnv(tr.ArrayProvider(tf.constant(X)), summary_path=tmp)
            env.spy = w
            m = PITF(env)
            had = set(id(v) for v in g.get_collection(tf.GraphKeys.GLOBAL_VARIABLES))
            built = None
            for q, steps in enumerate(job["trains"]):
                j = dict(job, id=job["id"] * 10 + q, steps=steps)
                rec = head(j, X)
                w.ys = []
                out = io.StringIO()
                for f in glob.glob(os.path.join(tmp, "*")):
                    os.remove(f)
                del tr.WRITERS[:]
                try:
                    with contextlib.redirect_stdout(out):
                        if built is None:
                            m.build_model(PITF.PITF_Args(**job["args"]))
                            w.mine = [v for v in g.get_collection(tf.GraphKeys.GLOBAL_VARIABLES) if id(v) not in had]
                            built = True
                        w.on = True
                        m.train(steps)
                except Exception as ex:
                    rec["err"], rec["msg"] = err_name(ex), str(ex)[:200]
                    recs.append(rec)
                    break
                finally:
                    w.on = False
                rec["lines"] = [dict(step=int(a), rate=fx(float(b)), rmse=fx(float(c))) for a, b, c in LINE.findall(out.getvalue())]
                rec["sums"] = sums(tmp)
                if w.ys:
                    rec["start"] = fxt(w.ys[0])
                    rec["Y"] = [fxt(y) for y in w.ys[1:]]
                    rec["wit"] = witnesses(j, X.astype(np.float64), w.ys[1:]) if len(w.ys) > 1 else []
                recs.append(rec)
    finally:
        shutil.rmtree(tmp, True)
    return recs


def sums(path):
    for w in tr.WRITERS:
        w.flush()
    out = []
    for f in sorted(glob.glob(os.path.join(path, "*"))):
        it = tf.train.summary_iterator(f)
        while True:
            try:
                ev = next(it)
            except (StopIteration, tf.errors.DataLossError):
                break
            if ev.HasField("summary") and len(ev.summary.value) > 0:
                v = {x.tag: x.simple_value if x.HasField("simple_value") else float(tf.make_ndarray(x.tensor)) for x in ev.summary.value}
                a = [x for t, x in v.items() if re.search(r"error.?rate", t)]
                b = [x for t, x in v.items() if re.search(r"(^|/)loss", t)]
                if a and b:
                    out.append(dict(step=int(ev.step), rate=fx(a[0]), rmse=fx(b[0])))
    return out


def run_all(jobs, emit):
    for job in jobs:
        rs = run_np(job) if job["impl"] == "np" else run_tf(job)
        emit(dict(id=job["id"], recs=rs))


if __name__ == "__main__":
    common.main(run_all)
