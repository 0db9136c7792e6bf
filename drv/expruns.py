"""Runs the experiment, ratings and demo scripts as programs, in a scratch directory.

Every path a script opens for writing, and the summary paths, are moved below the scratch
directory; reading looks there first.  With "fake", train() of the models returns a given
history instead of computing one."""
import builtins, contextlib, gc, io, os, re, runpy, shutil, sys, tempfile, zlib
import common
from common import err_name, fx, fxt, np

tf = common.load_tf()
from tensorD.factorization import env as env_mod
from tensorD.factorization.cp import CP_ALS
from tensorD.factorization.ncp import NCP_BCU
from tensorD.factorization.ntucker import NTUCKER_BCU
from tensorD.factorization.tucker import HOOI, HOSVD

ROOT = os.path.join(common.REPO, "tensorD")
NOW = dict(on=False, tmp=None, models=[], fake=None, ml=False)
OPEN, MKDIR, MAKEDIRS, EXISTS, ISDIR = open, os.mkdir, os.makedirs, os.path.exists, os.path.isdir


def inside(p):
    """The path below the scratch directory."""
    p = os.path.abspath(os.fspath(p))
    return p if p == NOW["tmp"] or p.startswith(NOW["tmp"] + os.sep) else NOW["tmp"] + p


def make(q, exist_ok):
    NOW["on"] = False               # the functions below call one another
    try:
        MAKEDIRS(q, exist_ok=exist_ok)
    finally:
        NOW["on"] = True


def moved_open(file, mode="r", *a, **k):
    if NOW["on"] and isinstance(file, (str, os.PathLike)):
        q = inside(file)
        if any(c in mode for c in "wax+"):
            make(os.path.dirname(q), True)
            file = q
        elif EXISTS(q):             # e.g. the ratings file
            file = q
    return OPEN(file, mode, *a, **k)


def moved(fn):
    def f(p, *a, **k):
        if NOW["on"] and isinstance(p, (str, os.PathLike)):
            q = inside(p)
            if fn in (MKDIR, MAKEDIRS):
                return make(q, bool(k.get("exist_ok")))
            return fn(q) or fn(p)
        return fn(p, *a, **k)
    return f


def moved1(fn):
    def f(p, *a, **k):
        return fn(inside(p) if NOW["on"] and isinstance(p, (str, os.PathLike)) else p, *a, **k)
    return f


def moved2(fn):
    def f(a, b, *r, **k):
        return fn(*((inside(a), inside(b)) if NOW["on"] else (a, b)), *r, **k)
    return f


builtins.open = io.open = moved_open
try:                                # numpy.savetxt keeps the opener it finds
    import numpy.lib._datasource as source
    source._file_openers._load()
    source._file_openers._file_openers[None] = moved_open
except (ImportError, AttributeError):
    pass
os.rename, os.replace = moved2(os.rename), moved2(os.replace)
os.mkdir, os.makedirs, os.path.exists, os.path.isdir, os.path.isfile = (moved(f) for f in (MKDIR, MAKEDIRS, EXISTS, ISDIR, os.path.isfile))
os.remove, os.unlink = moved1(os.remove), moved1(os.unlink)


def wrap_env():
    init = env_mod.Environment.__init__

    def wrapped(self, data_provider, summary_path=None, *a, **k):
        if NOW["on"] and summary_path is not None:
            summary_path = inside(summary_path)
        init(self, data_provider, summary_path, *a, **k)
    env_mod.Environment.__init__ = wrapped


def data_of(x):
    x = np.asarray(x)
    if not NOW["ml"]:
        return fxt(x)
    at = np.argwhere(x)[:5000]
    return dict(s=[int(n) for n in x.shape], at=[[int(q) for q in i] + [int(round(4 * float(x[tuple(i)])))] for i in at])


def wrap_model(cls):
    init, build, train = cls.__init__, cls.build_model, cls.train

    def wrapped_init(self, env, *a, **k):
        self._seen_env = env
        init(self, env, *a, **k)

    def wrapped_build(self, args, *a, **k):
        r = build(self, args, *a, **k)
        if NOW["on"]:
            d = dict(cls=cls.__name__, x=data_of(self._seen_env.full_data()), hist=[], trains=0, obj=self)
            d["ranks"] = [int(args.rank)] if hasattr(args, "rank") else [int(q) for q in args.ranks]
            NOW["models"].append(d)
        return r

    def wrapped_train(self, steps=None, *a, **k):
        if not NOW["on"]:
            return train(self, steps, *a, **k)
        if NOW["fake"] is not None:
            h = [[np.float32(v) for v in p] for p in NOW["fake"]]
        else:
            h = train(self, steps, *a, **k)
        for d in NOW["models"]:
            if d["obj"] is self:
                d["hist"] = [] if h is None else [[fx(v) for v in p] for p in h]
                d["trains"] += 1
        return h
    cls.__init__, cls.build_model, cls.train = wrapped_init, wrapped_build, wrapped_train


wrap_env()
for c in (CP_ALS, NCP_BCU, NTUCKER_BCU, HOOI, HOSVD):
    wrap_model(c)

LINE = re.compile(r"^\s*(-?\d+\.\d{10}|-?inf|nan)\s*,\s*(-?\d+\.\d{10}|-?inf|nan)\s*$")
RUN = re.compile(r"^([a-z]+)_(\d+)_(\d+)_(\d+)_(\d+)\.txt$")
ML = re.compile(r"^([a-z]+_ml)_(\d+)\.txt$")


def exact(t):
    if t in ("nan", "inf", "-inf"):
        return fx(float(t))
    n = abs(int(t.replace(".", "").replace("-", ""))) * 10 ** 6
    if n == 0:
        return [0]
    out = [-1 if t.startswith("-") else 1]
    while n:
        out.append(n % 10000)
        n //= 10000
    return out


def files(before):
    """The result files: everything written as text, summaries aside."""
    out, seen = [], {}
    for d, _, fs in os.walk(NOW["tmp"]):
        for f in sorted(fs):
            if f.startswith("events.out") or f.endswith(".csv"):
                continue
            with OPEN(os.path.join(d, f), "rb") as h:
                b = h.read()
            m, q = RUN.match(f), ML.match(f)
            name = [m.group(1)] + [int(x) for x in m.groups()[1:]] if m else [q.group(1), 943, 0, int(q.group(2)), 0] if q else [f, 0, 0, 0, 0]
            e = dict(name=name, print=zlib.crc32(b) & 0x3fffffff)
            key = os.path.join(d, f)
            seen[key] = (e["print"], os.stat(key).st_mtime_ns)
            if before.get(key) != seen[key]:
                e["lines"] = []
                for l in b.decode("utf8", "replace").splitlines():
                    v = LINE.match(l)
                    e["lines"].append(dict(v=[exact(x) for x in v.groups()]) if v else dict(bad=l[:60]))
            out.append(e)
    return out, seen


def one(run, seen):
    rec = {k: v for k, v in run.items() if k not in ("fake", "seed")}
    argv = sys.argv
    o = io.StringIO()
    NOW.update(models=[], fake=run.get("fake"), ml=run["kind"] == "ml")
    tf.reset_default_graph()
    np.random.seed(run["seed"])
    tf.set_random_seed(run["seed"])
    if "csv" in run:
        p = inside("/root/tensorD_f/data_out_tmp/u1.base.csv")
        MAKEDIRS(os.path.dirname(p), exist_ok=True)
        with OPEN(p, "w") as f:
            for i in run["csv"]:
                f.write(",".join(str(q) for q in i[:3]) + ",%s\n" % (i[3] / 4 if i[3] % 4 else i[3] // 4))
    try:
        sys.argv = [run["script"]] + [str(a) for a in run.get("argv", [])]
        NOW["on"] = True
        with contextlib.redirect_stdout(o):
            runpy.run_path(os.path.join(ROOT, run["script"]), run_name="__main__")
    except (Exception, SystemExit) as e:
        rec.update(err=err_name(e), msg=str(e)[:200])
    finally:
        NOW["on"] = False
        sys.argv = argv
    ms = []
    for d in NOW["models"]:
        m = d.pop("obj")
        if d.pop("trains") != 1:
            rec.setdefault("err", "not trained exactly once")
        d["done"] = bool(m.train_finish() if callable(m.train_finish) else m.train_finish)
        if run["kind"] == "multi":
            f = m.full() if callable(m.full) else m.full
            d["full"] = fxt(f) if f is not None else dict(s=[], d=[])
        if run["kind"] in ("multi", "demo"):
            d.pop("hist")
        ms.append(d)
    NOW["models"] = []
    rec["models"] = ms
    if run["kind"] == "multi":
        rec["said"] = [fx(float(l)) for l in o.getvalue().splitlines() if re.match(r"^\s*[-+]?[0-9.]+(e[-+]?\d+)?\s*$", l)]
    rec["files"], seen = files(seen)
    gc.collect()
    return rec, seen


def run_all(jobs, emit):
    for job in jobs:
        NOW["tmp"] = tempfile.mkdtemp(prefix="exp-")
        rec = dict(id=job["id"], runs=[])
        seen = {}
        try:
            for run in job["runs"]:
                r, seen = one(run, seen)
                rec["runs"].append(r)
        except Exception as e:
            rec.update(err=err_name(e), msg=str(e)[:200])
        finally:
            shutil.rmtree(NOW["tmp"], True)
        emit(rec)


if __name__ == "__main__":
    common.main(run_all)
