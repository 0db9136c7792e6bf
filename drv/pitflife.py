"""Runs histories of PITF trainings (several models, repeated trainings, every reporting interval) and records what they
printed, wrote and left behind, next to the multipliers after each session run (C36)."""
import contextlib, glob, io, json, os, re, shutil, tempfile
import common
from common import arr, err_name, fx, fxt, np
import train as tr
import pitfrun
from pitfrun import LINE, PITF, PITF_np, Environment, Watch, sums, tf

CP = tr.KINDS["cp"]
NPLINE = re.compile(r"step:(\d+),erate:([-+.\w]+),loss:([-+.\w]+)")


def vectors(path, head):
    """The vectors printed to a file, each entry being head followed by a bracketed list."""
    if not os.path.exists(path):
        return None
    with open(path) as f:
        text = f.read()
    out = []
    for a, b in re.findall(head + r"\s*\[([^\]]*)\]", text):
        out.append((a, [float(x) for x in b.split()]))
    if len(re.findall(head, text)) != len(out):
        return None
    return out


def finished(m):
    f = m.train_finish
    return bool(f() if callable(f) else f)


def run_tf(job):
    tmp = tempfile.mkdtemp(prefix="pl-")
    rec = dict(id=job["id"], impl="tf", models=[dict(num=q["args"]["sample_num"], delt=fx(q["args"]["delt"]), every=q["args"]["validation_internal"],
                                                     n=q["X"]["s"]) for q in job["models"]], ev=[])
    cwd = os.getcwd()
    os.chdir(tmp)
    g = tf.Graph()
    try:
        with g.as_default():
            tf.set_random_seed(job["seed"])
            ms, by = [None] * len(job["models"]), None
            mine, ws, paths = {}, {}, {}
            for op in job["ops"]:
                if op["op"] == "other":     # a CP model is built and trained among them
                    with common.quiet():
                        x = np.random.RandomState(job["seed"]).rand(3, 4, 2)
                        by = CP[0](Environment(tr.ArrayProvider(x), summary_path=os.path.join(tmp, "by")))
                        by.build_model(CP[1](rank=2))
                        by.train(3)
                        held = np.array(by.full)
                    continue
                k = op["m"]
                spec = job["models"][k - 1]
                e = dict(op=op["op"], m=k)
                out = io.StringIO()
                try:
                    if op["op"] == "build":
                        had = set(id(v) for v in g.get_collection(tf.GraphKeys.GLOBAL_VARIABLES))
                        paths[k] = os.path.join(tmp, "s%d" % k)
                        os.makedirs(paths[k], exist_ok=True)
                        env = tr.SpyEnv(tr.ArrayProvider(tf.constant(arr(spec["X"], "float32"))), summary_path=paths[k])
                        env.spy = ws[k] = Watch(spec["args"]["sample_num"])
                        m = PITF(env)
                        with contextlib.redirect_stdout(out):
                            m.build_model(PITF.PITF_Args(**spec["args"]))
                        ws[k].mine = [v for v in g.get_collection(tf.GraphKeys.GLOBAL_VARIABLES) if id(v) not in had]
                        ms[k - 1] = m
                    else:
                        e["steps"] = op["steps"]
                        w = ws[k]
                        w.ys, w.on = [], True
                        for p in paths.values():
                            for f in glob.glob(os.path.join(p, "*")):
                                os.remove(f)
                        del tr.WRITERS[:]
                        with contextlib.redirect_stdout(out):
                            ms[k - 1].train(op["steps"])
                        w.on = False
                        e["lines"] = [dict(step=int(a), rate=fx(float(b)), rmse=fx(float(c))) for a, b, c in LINE.findall(out.getvalue())]
                        e["sums"] = sums(paths[k])
                        e["elsewhere"] = sum(len(sums(p)) for q, p in paths.items() if q != k)
                        e["Y"] = [fxt(y) for y in w.ys[1:]]
                        for name, f, head in (("ys", "pitf_y.txt", r"(y:%s)"), ("es", "pitf_e2.txt", r"(e2a:%s)")):
                            v = vectors(f, head)
                            if v is not None:
                                e[name] = [fxt(q) for _, q in v]
                except Exception as ex:
                    e["err"], e["msg"] = err_name(ex), str(ex)[:200]
                for w in ws.values():
                    w.on = False
                e["fin"] = [m is not None and finished(m) for m in ms]
                e["kept"] = by is None or bool(np.array_equal(by.full, held))
                rec["ev"].append(e)
                if "err" in e:
                    break
    except Exception as ex:
        rec["err"], rec["msg"] = err_name(ex), str(ex)[:200]
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, True)
    return rec


def run_np(job):
    tmp = tempfile.mkdtemp(prefix="pl-")
    rec = dict(id=job["id"], impl="np", ev=[])
    cwd = os.getcwd()
    os.chdir(tmp)
    try:
        for op in job["ops"]:
            spec = job["models"][op["m"] - 1]
            X = arr(spec["X"], "float64")
            e = dict(op="train", m=op["m"], steps=op["steps"], seed=op["seed"])
            out = io.StringIO()
            try:
                with tf.Graph().as_default(), contextlib.redirect_stdout(out):
                    np.random.seed(op["seed"])
                    m = PITF_np(Environment(tr.ArrayProvider(X), summary_path=os.path.join(tmp, "s")))
                    Xc = X.copy()
                    y, a, b, c, It, E, R = m.exact_recovery(PITF_np.PITF_np_Args(steps=op["steps"], **spec["args"]), Xc)
                e.update(y=fxt(y), E=[fx(v) for v in E], R=[fx(v) for v in R], same=bool(np.array_equal(X, Xc)),
                         lines=[dict(step=int(a), rate=fx(float(b)), rmse=fx(float(c))) for a, b, c in NPLINE.findall(out.getvalue())])
                for name, f in (("ys", "np_y.txt"), ("es", "np_e2.txt")):
                    v = vectors(f, r"(\d+),")
                    if v is not None:
                        e[name] = [fxt(q) for _, q in v]
                        e[name + "n"] = [int(q) for q, _ in v]
            except Exception as ex:
                e["err"], e["msg"] = err_name(ex), str(ex)[:200]
            rec["ev"].append(e)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, True)
    return rec


def run(job):
    return run_np(job) if job["impl"] == "np" else run_tf(job)


def run_all(jobs, emit):
    # a job that is to run alone gets a process in which nothing ran before
    for job in [j for j in jobs if j.get("alone")]:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                with os.fdopen(w, "w") as f:
                    json.dump(run(job), f)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            text = f.read()
        os.waitpid(pid, 0)
        emit(json.loads(text) if text else dict(id=job["id"], impl=job["impl"], ev=[], err="ended"))
    for job in jobs:
        if not job.get("alone"):
            emit(run(job))


if __name__ == "__main__":
    common.main(run_all)
