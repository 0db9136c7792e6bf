"""Runs scripts of build / train / predict / read operations on the factorization models.

Observation points, all public: the Environment given to the model (its `sess` property is
the extension point for the session), the model's properties, the value train() returns,
the progress lines it prints and the summary records it writes.  The session handed to the
model is a tf.Session that also looks at the model before and after each run."""
import glob, os, re, shutil, tempfile, contextlib, io, zlib
import common
from common import arr, err_name, fx, fxt, np

tf = common.load_tf()
from tensorD.factorization.env import Environment
from tensorD.factorization.cp import CP_ALS
from tensorD.factorization.ncp import NCP_BCU
from tensorD.factorization.ntucker import NTUCKER_BCU
from tensorD.factorization.tucker import HOSVD, HOOI
from tensorD.factorization.pitf import PITF
from tensorD.dataproc.provider import Provider

KINDS = {"cp": (CP_ALS, CP_ALS.CP_Args), "ncp": (NCP_BCU, NCP_BCU.NCP_Args),
         "ntucker": (NTUCKER_BCU, NTUCKER_BCU.NTUCKER_Args), "hosvd": (HOSVD, HOSVD.HOSVD_Args),
         "hooi": (HOOI, HOOI.HOOI_Args), "pitf": (PITF, PITF.PITF_Args)}


WRITERS = []


class KeptWriter(tf.summary.FileWriter):
    """Summary writers are kept, so that they can be flushed before their files are read."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        WRITERS.append(self)


tf.summary.FileWriter = KeptWriter


class ArrayProvider(Provider):
    def __init__(self, x):
        self.x = x

    def full_tensor(self):
        return self.x


class SpySession(tf.Session):
    """A session that calls the observers around each run of the code under test."""

    def __init__(self, spy, *a, **k):
        super().__init__(*a, **k)
        self.spy = spy
        self.inside = False

    def run(self, fetches, feed_dict=None, options=None, run_metadata=None):
        if self.inside:
            return super().run(fetches, feed_dict, options, run_metadata)
        self.inside = True
        try:
            self.spy.before(self, fetches, feed_dict)
        finally:
            self.inside = False
        if getattr(self.spy, "graphs", False):
            # also ask for the graph as the runtime executes it, after its optimizations
            o, md = tf.RunOptions(), tf.RunMetadata()
            if options is not None:
                o.CopyFrom(options)
            o.output_partition_graphs = True
            out = super().run(fetches, feed_dict, o, md)
            self.spy.executed(self, fetches, feed_dict, md)
            md.ClearField("partition_graphs")
            if run_metadata is not None:
                run_metadata.CopyFrom(md)
        else:
            out = super().run(fetches, feed_dict, options, run_metadata)
        self.inside = True
        try:
            self.spy.after(self, fetches, feed_dict)
        finally:
            self.inside = False
        return out


class SpyEnv(Environment):
    spy = None

    @property
    def sess(self):
        return SpySession(self.spy)


def in_form(x, form):
    """The same data as another kind of array."""
    if form == "F":
        return np.asfortranarray(x)
    if form == "strided":
        big = np.full([2 * n for n in x.shape], 7.0, dtype=x.dtype)
        v = big[tuple(slice(None, None, 2) for _ in x.shape)]
        v[...] = x
        return v
    if form == "flip":
        return np.ascontiguousarray(x[::-1])[::-1]
    if form == "be":
        return x.astype(x.dtype.newbyteorder(">"))
    if form == "ro":
        x.flags.writeable = False
    if form in ("int16", "int32", "int64", "uint8", "float16"):
        return x.astype(form)
    return x


def value_of(model, name):
    v = getattr(model, name, None)
    return v() if callable(v) and name in ("full", "train_finish") else v


class Model:
    """One model of a script, with what is observed of it."""

    def __init__(self, spec, graph, tmp, n):
        self.spec, self.graph = spec, graph
        self.cls, self.args_cls = KINDS[spec["kind"]]
        self.path = os.path.join(tmp, "sum%d" % n)
        x = in_form(arr(spec["X"], spec.get("xdt", "float64")), spec.get("form"))
        self.x = x
        self.x0 = x.copy()
        self.want_x = x.copy()      # what the data must be now
        self.env = SpyEnv(ArrayProvider(x), summary_path=self.path)
        self.env.spy = self
        self.m = self.cls(self.env)
        self.init = None
        self.fed, self.copied = [], False
        self.want_init = False
        self.training = False
        self.given = []     # histories handed out so far

    def args(self):
        """The options, some of them as numpy numbers, tuples or arrays."""
        a = dict(self.spec["args"])
        k = zlib.crc32(repr((sorted(a.items()), self.spec["X"]["s"], self.spec["X"]["d"][:3])).encode())
        if isinstance(a.get("ranks"), list):
            a["ranks"] = [list, tuple, np.array, list][k % 4](a["ranks"])
        elif "rank" in a and k % 4 == 1:
            a["rank"] = np.int64(a["rank"])
        if k % 8 == 2 and isinstance(a.get("validation_internal"), int):
            a["validation_internal"] = np.int32(a["validation_internal"])
        if k % 8 == 3 and isinstance(a.get("tol"), float):
            a["tol"] = np.float64(a["tol"])
        return self.args_cls(**a)

    # observers
    def state_ids(self):
        return (id(getattr(self.m, "factors", None)), id(getattr(self.m, "core", None)))

    def before(self, sess, fetches, feed):
        if not self.training:
            return
        if feed:
            self.fed = [v for v in feed.values() if isinstance(v, np.ndarray) and v.shape == self.x.shape]
        f = value_of(self.m, "train_finish")
        self.during.append(bool(f))
        self.see_full()
        ids = self.state_ids()
        if self.want_init and ids == self.start_ids:
            self.snap = snapshot(sess)
        scale = self.spec.get("scale")
        if scale and ids != self.last_ids and getattr(self.m, "factors", None) is not None:
            # one more step was completed since the last run
            if self.last_factors is not getattr(self.m, "factors", None):
                self.last_factors = getattr(self.m, "factors", None)
                self.nstep += 1
                c = scale[self.nstep] if self.nstep < len(scale) else 1.0
                if c != 1.0 and not any(np.shares_memory(v, self.x) for v in self.fed):
                    self.copied = True      # the program trains on a copy of the data: then they do not change
                elif c != 1.0:
                    self.x *= c
                    self.want_x *= c
        self.last_ids = ids

    def after(self, sess, fetches, feed):
        pass

    def see_full(self):
        full = value_of(self.m, "full")
        if full is not None and full is not self.last_full:
            self.last_full = full
            self.fulls.append(np.array(full))
            f = getattr(self.m, "factors", None)
            self.facs.append([] if f is None else [np.array(q) for q in f])

    def digest(self):
        """A number that identifies what the model holds, -1 for nothing."""
        m = self.m
        parts = [value_of(m, "full")] + list(getattr(m, "factors", None) or [])
        parts += [getattr(m, "core", None), getattr(m, "lambdas", None)]
        parts = [np.ascontiguousarray(p) for p in parts if p is not None]
        if not parts:
            return -1
        h = 0
        for p in parts:
            h = zlib.crc32(p.tobytes() + repr(p.shape).encode(), h)
        return h & 0x3fffffff

    # operations
    def build(self):
        self.m.build_model(self.args())

    def train(self, steps, want_init=False):
        self.want_init = want_init
        self.snap = None
        self.during = []
        self.nstep = 0
        self.fulls, self.facs = [], []
        self.last_full = value_of(self.m, "full")
        self.last_factors = getattr(self.m, "factors", None)
        self.start_ids = self.last_ids = self.state_ids()
        for f in glob.glob(os.path.join(self.path, "*")):
            os.remove(f)
        if self.spec.get("scale"):
            self.x[...] = self.x0
            self.want_x[...] = self.x0
        del WRITERS[:]
        out = io.StringIO()
        self.training = True
        self.lines = []
        try:
            with contextlib.redirect_stdout(out):
                h = self.m.train(steps)
            self.see_full()
        finally:
            self.training = False
            self.lines = parse_lines(out.getvalue())
        return h


def snapshot(sess):
    vs = sess.graph.get_collection(tf.GraphKeys.GLOBAL_VARIABLES)
    out = {}
    for v in vs:
        try:
            out[v.op.name] = sess.run(v)
        except Exception:
            pass
    return out


def match_init(snap, shapes, core_shape):
    """Initial factors (and core) among the variables, by shape; by name only where shapes repeat."""
    if not snap:
        return None, None
    used = [tuple(s) for s in shapes] + ([tuple(core_shape)] if core_shape else [])
    res = []
    for i, s in enumerate(used):
        cand = [n for n, v in snap.items() if np.shape(v) == s and np.any(v != 0)]
        if used.count(s) > 1:
            if core_shape and i == len(shapes):
                return None, None
            cand = [n for n in cand if re.search(r"-%d$" % i, n)]
        if not cand:
            return None, None
        res.append(snap[cand[0]])
    return (res[:-1], res[-1]) if core_shape else (res, None)


LINE = re.compile(r"step=(\d+), RMSE=([-+.\w]+), relerr=([-+.\w]+)")


def parse_lines(text):
    return [[int(a), fx(float(b)), fx(float(c))] for a, b, c in LINE.findall(text)]


def parse_summaries(path):
    """Per summary record, in order: its step and the number of values, the loss and residual in it."""
    recs = []
    for w in WRITERS:
        w.flush()
    for f in sorted(glob.glob(os.path.join(path, "*"))):
        it = tf.train.summary_iterator(f)
        while True:
            try:
                ev = next(it)
            except (StopIteration, tf.errors.DataLossError):
                break
            if ev.HasField("summary") and len(ev.summary.value) > 0:
                vals = {}
                for v in ev.summary.value:
                    if v.HasField("simple_value"):
                        vals[v.tag] = v.simple_value
                    elif v.HasField("tensor"):
                        vals[v.tag] = float(tf.make_ndarray(v.tensor))
                loss = [v for k, v in vals.items() if re.search(r"(^|/)loss(_\d+)?$", k)]
                rel = [v for k, v in vals.items() if re.search(r"(^|/)relative_residual(_\d+)?$", k)]
                recs.append(dict(step=int(ev.step), nv=len(vals), loss=fx(loss[0]) if loss else [2],
                                 rel=fx(rel[0]) if rel else [2], nl=len(loss), nr=len(rel)))
    return recs


def enc_state(mod, want):
    m = mod.m
    r = {}
    full = value_of(m, "full")
    r["hasfull"] = full is not None
    r["hasfac"] = getattr(m, "factors", None) is not None
    r["finish"] = bool(value_of(m, "train_finish"))
    if "state" in want:
        if full is not None:
            r["full"] = fxt(full)
        if r["hasfac"]:
            r["fac"] = [fxt(f) for f in m.factors]
        if getattr(m, "core", None) is not None:
            r["core"] = fxt(m.core)
        if getattr(m, "lambdas", None) is not None:
            r["lam"] = fxt(m.lambdas)
    return r


def enc_hist(h):
    if h is None:
        return None
    return [[fx(a), fx(b)] for a, b in h]


def run_op(op, mods, want):
    what, k = op[0], op[1]
    mod = mods[k]
    r = dict(op=what, m=k + 1)
    try:
        if what == "build":
            with common.quiet():
                mod.build()
        elif what == "train":
            r["k"] = op[2]
            opts = op[3] if len(op) > 3 else {}
            h = mod.train(op[2], want_init=opts.get("init", False))
            r["hist"] = enc_hist(h) if h is not None else []
            r["hashist"] = h is not None
            r["n"] = len(h) if h is not None else 0
            if h is not None:
                mod.given.append((h, enc_hist(h)))
        elif what == "predict":
            r["ix"] = list(op[2])
            p = mod.m.predict(*(np.array(op[2]) if len(op) > 3 and op[3] == "np" else op[2]))
            r["val"] = fx(p)
            full = value_of(mod.m, "full")
            r["fullval"] = fx(full[tuple(op[2])])
        elif what == "read":
            pass
    except Exception as e:
        r["err"] = err_name(e)
        r["msg"] = str(e)[:160]
    try:
        r["histok"] = all(enc_hist(h) == e for q in mods for h, e in q.given)
        r["held"] = [[q.digest(), bool(value_of(q.m, "train_finish"))] for q in mods]
        if what == "train":
            if "steps" in want:
                r["steps"] = [fxt(f) for f in mod.fulls]
            if "facs" in want:
                r["facs"] = [[fxt(f) for f in q] for q in mod.facs]
            r["during"] = any(mod.during)
            r["lines"] = mod.lines
            if "sums" in want:
                r["sums"] = parse_summaries(mod.path)
            if mod.snap is not None:
                sh = [(n, c) for n, c in zip(mod.x.shape, ranks_of(mod))]
                fac, core = match_init(mod.snap, sh, tuple(ranks_of(mod)) if mod.spec["kind"] == "ntucker" else None)
                if fac is not None:
                    r["init"] = [fxt(f) for f in fac]
                    if core is not None:
                        r["core0"] = fxt(core)
        if what in ("train", "read", "predict"):
            st = enc_state(mod, want if what == "train" else (want | {"state"} if what == "read" and "readstate" in want else want - {"state"}))
            r.update(st)
        r["dataok"] = bool(mod.x.dtype == mod.x0.dtype and np.array_equal(mod.x, mod.want_x))
    except Exception as e:
        r["err"] = "Unreadable"
        r["msg"] = "%s: %s" % (err_name(e), str(e)[:160])
    return r


def ranks_of(mod):
    a = mod.spec["args"]
    return a["ranks"] if "ranks" in a else [a["rank"]] * mod.x.ndim


def run_script(job):
    tmp = tempfile.mkdtemp(prefix="tr-")
    want = set(job.get("want", ["state"]))
    try:
        ng = max(m.get("graph", 0) for m in job["models"]) + 1
        graphs = [tf.Graph() for _ in range(ng)]
        for g in graphs:
            with g.as_default():
                tf.set_random_seed(job.get("seed", 1))
        mods = []
        for n, ms in enumerate(job["models"]):
            mods.append(Model(ms, graphs[ms.get("graph", 0)], tmp, n))
        evs = []
        for op in job["ops"]:
            with mods[op[1]].graph.as_default():
                evs.append(run_op(op, mods, want))
        return evs, mods
    finally:
        shutil.rmtree(tmp, True)


def enc_model(ms, copied=False):
    r = {k: v for k, v in ms.items() if k not in ("X", "args", "scale")}
    x = arr(ms["X"], ms.get("xdt", "float64")).astype(np.float32)
    r["X"] = fxt(x)
    a = dict(ms["args"])
    if ms.get("scale") and not copied:
        r["cum"] = [fx(c) for c in np.cumprod(ms["scale"])]
    r["tol"] = fx(np.float64(a.get("tol", 1.0e-4)))
    r["vi"] = a.get("validation_internal", -1)
    r["verbose"] = bool(a.get("verbose", False))
    r["ranks"] = a.get("ranks", [a.get("rank", 0)] * len(ms["X"]["s"]))
    return r


def run_all(jobs, emit):
    for job in jobs:
        rec = {k: v for k, v in job.items() if k not in ("models", "ops")}
        rec["ev"], mods = run_script(job)
        rec["models"] = [enc_model(m, q.copied) for m, q in zip(job["models"], mods)]
        emit(rec)


if __name__ == "__main__":
    common.main(run_all)
