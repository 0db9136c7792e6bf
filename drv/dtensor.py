"""Replays histories of calls on DTensor objects."""
import common
from common import arr, err_name, intt, np
from ops import ax

tf = common.load_tf()
from tensorD.base.type import DTensor


class History:
    def __init__(self, job):
        self.job, self.feed, self.pool, self.ev = job, {}, [], []
        self.dt = job.get("dt", "float32")

    def raw(self, x, how):
        a = arr(x, self.dt)
        if how == "np":
            return a
        if how == "ph":
            p = tf.placeholder(a.dtype, shape=a.shape)
            self.feed[p] = a
            return p
        return tf.constant(a)

    def second(self, op):
        if "p" in op:
            return self.pool[op["p"] - 1]
        if op.get("how") == "scalar":
            return op["arg"]["d"][0]
        return self.raw(op["arg"], op.get("how", "tensor"))

    def call(self, op):
        x = self.pool[op["o"] - 1]
        w = op["op"]
        if w == "unfold":
            return x.unfold() if op.get("deflt") else x.unfold(op["mode"])
        if w == "t2mat":
            return x.t2mat(ax(op["r"], op.get("rf", "list")), -1 if op["cinf"] else ax(op["c"], op.get("cf", "list")))
        if w == "vectorize":
            return x.vectorize()
        if w == "mul":
            y = self.pool[op["p"] - 1]
            if op.get("deflt"):
                return x.mul(y)
            return x.mul(y, ax(op["pa"], op.get("pf", "list")), ax(op["qa"], op.get("qf", "list")))
        if w == "kron":
            return x.kron(self.second(op))
        if w == "khatri":
            return x.khatri(self.second(op))
        if w == "add":
            return x + self.second(op)
        if w == "sub":
            return x - self.second(op)
        if w == "had":
            return x * self.second(op)
        if w == "index":
            ix = tuple(slice(None) if q == -1 else q for q in op["ix"])
            return x[ix[0] if len(ix) == 1 else ix]
        if w == "fold":
            m = self.raw(op["arg"], op.get("how", "tensor"))
            s = tuple(op["s"]) if op.get("tup") else list(op["s"])
            return (x if op.get("inst") else DTensor).fold(m, op["mode"], s)
        if w == "eval":
            return ("eval", x)
        if w == "shape":
            return ("shape", [int(q) for q in x.get_shape().as_list()])
        raise AssertionError(w)

    def build(self):
        for o in self.job["objs"]:
            self.pool.append(DTensor(self.raw(o["T"], o["how"])))
        for op in self.job["ops"]:
            e = dict(op)
            try:
                with common.quiet():
                    r = self.call(op)
                e["_r"] = r
                if isinstance(r, DTensor):
                    e["new"] = True
                    e["shp"] = [int(q) for q in r.shape]
                    self.pool.append(r)
                seen = {op["o"]} | ({op["p"]} if "p" in op else set())
                e["after"] = [dict(o=k, T=self.pool[k - 1].T, shape=[int(q) for q in self.pool[k - 1].shape]) for k in sorted(seen)]
            except Exception as ex:
                e["err"] = err_name(ex)
                e["msg"] = str(ex)[:150]
                e["after"] = []
                self.ev.append(e)
                break
            self.ev.append(e)

    def fetches(self):
        out = []
        for e in self.ev:
            r = e.get("_r")
            t = r.T if isinstance(r, DTensor) else r if isinstance(r, tf.Tensor) else None
            out.append([t] if t is not None else [])
            out.append([a["T"] for a in e["after"]])
        return out

    def finish(self, vals, sess):
        for k, e in enumerate(self.ev):
            r = e.pop("_r", None)
            if isinstance(r, tuple) and r[0] == "eval":
                with sess.as_default():
                    e["out"] = intt(r[1].eval(feed_dict=self.feed, session=sess) if k % 2 else r[1].eval(self.feed))
            elif isinstance(r, tuple):
                e["out"] = {"s": [len(r[1])], "d": r[1]}
            elif vals[2 * k]:
                e["out"] = intt(vals[2 * k][0])
            for a, x in zip(e["after"], vals[2 * k + 1]):
                a["T"] = intt(x)


def run_batch(jobs, emit):
    g = tf.Graph()
    with g.as_default():
        hs = []
        for j in jobs:
            h = History(j)
            h.build()
            hs.append(h)
        with tf.Session(graph=g) as s:
            for h in hs:
                rec = dict(id=h.job["id"], objs=[{"s": list(o["T"]["s"]), "d": o["T"]["d"]} for o in h.job["objs"]])
                try:
                    vals = s.run(h.fetches(), feed_dict=h.feed)
                    h.finish(vals, s)
                    rec["ev"] = h.ev
                except Exception as ex:
                    rec["ev"] = []
                    rec["err"] = err_name(ex)
                    rec["msg"] = str(ex)[:150]
                emit(rec)


def run_all(jobs, emit):
    for k in range(0, len(jobs), 40):
        run_batch(jobs[k:k + 40], emit)


if __name__ == "__main__":
    common.main(run_all)
