"""Replays histories of files written, readers opened and reads done on TensorReader."""
import os
import common
from common import err_name, fx, fxt, np

tf = common.load_tf()
from tensorD.dataproc.reader import TensorReader


def look(readers):
    seen = []
    for k, r in enumerate(readers):
        if r is not None:
            seen.append((k + 1, r.full_data, r.sparse_data))
    return seen


def run(job, root):
    os.makedirs(root)
    paths = []
    for k, n in enumerate(job["names"]):
        p = os.path.join(root, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        paths.append(p)
    ev, readers = [], [None] * len(job["of"])
    for op in job["ops"]:
        e = {k: x for k, x in op.items() if k not in ("tup",)}
        try:
            with common.quiet():
                if op["op"] == "write":
                    with open(paths[op["f"] - 1], "w", newline="") as f:
                        f.write("".join(op["text"]))
                elif op["op"] == "open":
                    p = paths[job["of"][op["r"] - 1] - 1]
                    readers[op["r"] - 1] = TensorReader(os.path.relpath(p) if job.get("rel") else p)
                else:
                    r = readers[op["r"] - 1]
                    if op["full"]:
                        r.read((tuple, list, np.array)[op.get("tup", 1)](op["full"]))
                    else:
                        r.read()
        except Exception as ex:
            e["err"], e["msg"] = err_name(ex), str(ex)[:150]
        e["_s"] = look(readers)
        ev.append(e)
    return ev


def run_batch(jobs, emit, base):
    g = tf.Graph()
    with g.as_default():
        done = [(j, run(j, os.path.join(base, "j%d" % j["id"]))) for j in jobs]
        with tf.Session(graph=g) as s:
            for j, ev in done:
                rec = dict(id=j["id"], ext=j["ext"], of=j["of"])
                try:
                    cache = {}
                    for e in ev:
                        for _, d, sp in e["_s"]:
                            if d is not None and id(d) not in cache:
                                cache[id(d)] = d
                            if sp is not None and id(sp) not in cache:
                                cache[id(sp)] = sp
                    keys = list(cache)
                    vals = dict(zip(keys, s.run([cache[k] for k in keys]))) if keys else {}
                    for e in ev:
                        e["seen"] = []
                        for r, d, sp in e.pop("_s"):
                            if d is None or sp is None:
                                e["seen"].append(dict(r=r, none=d is None and sp is None, D={"s": [], "d": []}, idx=[], val=[], shape=[]))
                                continue
                            q = vals[id(sp)]
                            dense = np.asarray(vals[id(d)])
                            e["seen"].append(dict(r=r, none=False, text=[list(repr(float(x))) for x in np.asarray(q.values).tolist()],
                                                  cell=[list(repr(float(dense[tuple(ix)]))) for ix in np.asarray(q.indices).tolist()
                                                        if len(ix) == dense.ndim and all(a < b for a, b in zip(ix, dense.shape))],
                                                   D=fxt(vals[id(d)]), idx=np.asarray(q.indices).tolist(),
                                                  val=[fx(x) for x in np.asarray(q.values).tolist()], shape=[int(x) for x in q.dense_shape]))
                    rec["ev"] = ev
                except Exception as ex:
                    rec.update(ev=[], err=err_name(ex), msg=str(ex)[:200])
                emit(rec)


def run_all(jobs, emit):
    base = os.path.join(os.getcwd(), "files")
    for k in range(0, len(jobs), 40):
        run_batch(jobs[k:k + 40], emit, base)


if __name__ == "__main__":
    common.main(run_all)
