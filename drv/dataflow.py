"""Replays histories in which providers get new data while environments are asked and models built and trained."""
import os, shutil, tempfile
import common
from common import arr, err_name, fxt, np
import train as tr

tf = common.load_tf()
from tensorD.factorization.env import Environment
from tensorD.dataproc.provider import Provider
from tensorD.dataproc.reader import TensorReader


class Source:
    """A provider of the given form and what it holds now."""

    def __init__(self, form, xform, versions, root):
        self.form, self.xform, self.versions, self.root = form, xform, versions, root
        self.n = 0
        self.set(1)
        self.provider = self.make()

    def set(self, v):
        t = self.versions[v - 1]
        x = arr(t, t.get("dt", "float64"))
        if self.form != "reader":
            x = tr.in_form(x, self.xform)
        self.x, self.keep = x, x.copy()
        if self.form == "reader":
            self.n += 1
            self.file = os.path.join(self.root, "d%d.csv" % (self.n if self.n % 2 else 0))
            with open(self.file, "w") as f:
                for ix, val in np.ndenumerate(x):
                    if val != 0:
                        f.write(",".join([str(i) for i in ix] + [repr(float(val))]) + "\n")

    def clean(self):
        return bool(self.x.dtype == self.keep.dtype and np.array_equal(self.x, self.keep))

    def make(self):
        me = self
        if self.form == "attr":             # as in the documentation
            p = Provider()
            p.full_tensor = lambda: me.x
            p.data_queue = lambda *a, **k: me
            return p

        class Sub(Provider):
            def full_tensor(self):
                if me.form == "fresh":
                    return me.x.copy()
                if me.form == "reader":
                    with tf.Graph().as_default(), tf.Session() as s:
                        r = TensorReader(me.file)
                        r.read(full_shape=list(me.x.shape))
                        return s.run(r.full_data)
                return me.x

            def data_queue(self, shuffled=True):
                return me
        return Sub()


def contract(root):
    """The bare provider, and environments around it."""
    r = {}

    def call(name, f):
        try:
            f()
            r[name] = "none"
        except Exception as e:
            r[name] = err_name(e)
    p = Provider()
    env = Environment(Provider(), summary_path=root)
    call("full_tensor", p.full_tensor)
    call("batch_size", lambda: p.batch_size)
    call("data_queue", p.data_queue)
    call("full_data", env.full_data)
    call("full_shape", env.full_shape)
    g1, g2 = tf.Graph(), tf.Graph()
    ok = True
    for g in (g1, g2, g1):
        with g.as_default():
            s = env.sess
            ok = ok and s.graph is g
            s.close()
    r["graphs"] = ok
    return r


def run(job, root):
    srcs = [Source(job["pform"][p], job["xform"][p], job["versions"][p], os.path.join(root, "p%d" % p)) for p in range(2)
            if not os.makedirs(os.path.join(root, "p%d" % p))]
    paths = [os.path.join(root, "s%d" % m) for m in range(2)]
    envs = []
    for m in range(2):
        if m and job["sharedenv"] and job["prov"][1] == job["prov"][0]:
            envs.append(envs[0])
        else:
            envs.append(Environment(srcs[job["prov"][m] - 1].provider, summary_path=paths[m]))
    one = tf.Graph()
    graphs, models, version = [None, None], [None, None], [0, 0]
    now = [1, 1]
    ev = []
    for what, k, x in job["ops"]:
        e = dict(op=what, m=k, x=x)
        try:
            if what == "set":
                srcs[k - 1].set(x)
                now[k - 1] = x
            elif what == "ask":
                d = envs[k - 1].full_data()
                e["data"] = fxt(d)
                e["shape"] = [int(q) for q in envs[k - 1].full_shape()]
                src = srcs[job["prov"][k - 1] - 1]
                e["rest"] = bool(envs[k - 1].data_queue() is src and envs[k - 1].summary_path in paths)
            else:
                cls, args = tr.KINDS[job["kinds"][k - 1]]
                if what == "build":
                    version[k - 1] = now[job["prov"][k - 1] - 1]
                    if job["graphs"] == "one":
                        graphs[k - 1] = one
                    else:
                        graphs[k - 1] = tf.Graph()
                        tf.reset_default_graph()
                    if models[k - 1] is None or job["remake"]:
                        models[k - 1] = cls(envs[k - 1])
                with graphs[k - 1].as_default(), common.quiet():
                    if what == "build":
                        models[k - 1].build_model(args(**job["args"][k - 1][version[k - 1] - 1]))
                    else:
                        h = models[k - 1].train(*([] if job["kinds"][k - 1] == "hosvd" else [job["steps"]]))
                        e["hist"] = tr.enc_hist(h) if h is not None else []
                        full = tr.value_of(models[k - 1], "full")
                        e["full"] = fxt(full)
        except Exception as ex:
            e["err"], e["msg"] = err_name(ex), str(ex)[:200]
        try:
            held = []
            for m in models:
                f = None if m is None else tr.value_of(m, "full")
                held.append(-1 if f is None else tr.zlib.crc32(np.ascontiguousarray(f).tobytes()) & 0x3fffffff)
            e["held"] = held
            e["clean"] = all(s.clean() for s in srcs)
        except Exception as ex:
            e["err"], e["msg"] = "Unreadable", err_name(ex)
        ev.append(e)
    return ev


def run_all(jobs, emit):
    for job in jobs:
        root = tempfile.mkdtemp(prefix="df-")
        try:
            rec = dict(id=job["id"], prov=job["prov"], kinds=job["kinds"], steps=job["steps"])
            rec["ranks"] = [[a.get("ranks", [a.get("rank", 0)]) for a in q] for q in job["args"]]
            rec["data"] = []
            for p in range(2):
                # what the models compute with: single precision
                rec["data"].append([fxt(arr(t, t.get("dt", "float64"))) for t in job["versions"][p]])
            rec["contract"] = contract(root)
            rec["ev"] = run(job, root)
            emit(rec)
        finally:
            shutil.rmtree(root, True)


if __name__ == "__main__":
    common.main(run_all)
