"""Records the op graph of every session run of the models, and replays runs under forced schedules.

For each distinct run the ancestors of what it fetches are written down as nodes of
spec/OpGraph.tla.  With "sched", every run is repeated on a copy of the graph in which extra
control edges force one linear order of all its ops; the results of the orders are compared
(by the specification)."""
import os, random, shutil, tempfile, zlib
import common
from common import arr, err_name, np
import train as tr

tf = common.load_tf()
from tensorflow.python.framework import op_def_registry

WRITES = ("Assign", "AssignAdd", "AssignSub", "ScatterUpdate", "ScatterAdd", "ScatterSub", "AssignVariableOp", "AssignAddVariableOp", "AssignSubVariableOp")


def flat_fetches(fetches):
    out = []
    if isinstance(fetches, (list, tuple)):
        for f in fetches:
            out += flat_fetches(f)
    elif isinstance(fetches, dict):
        for f in fetches.values():
            out += flat_fetches(f)
    elif fetches is not None:
        out.append(fetches)
    return out


def elem(graph, f):
    e = graph.as_graph_element(f, allow_tensor=True, allow_operation=True)
    return (e, None) if isinstance(e, tf.Operation) else (e.op, e)


def closure(ops, fed):
    """Ancestors of ops in an order compatible with the edges (None if there is none), cut at fed tensors."""
    order, mark = [], {}
    stack = [(o, False) for o in ops]
    while stack:
        o, leave = stack.pop()
        if leave:
            mark[o] = 2
            order.append(o)
            continue
        if o in mark:
            continue
        mark[o] = 1
        stack.append((o, True))
        for p in [t.op for t in o.inputs if t.name not in fed] + list(o.control_inputs):
            if mark.get(p) == 1:
                return None
            if p not in mark:
                stack.append((p, False))
    return order


def takes_ref(op):
    """Per input, whether the op takes a reference."""
    out = []
    for a in op.op_def.input_arg:
        n = 1
        if a.number_attr:
            n = op.get_attr(a.number_attr)
        elif a.type_list_attr:
            n = len(op.get_attr(a.type_list_attr))
        out += [bool(a.is_ref)] * int(n)
    return (out + [False] * len(op.inputs))[:len(op.inputs)]


def ref_args(nd):
    """Per data input of a node of an executed graph, whether the op takes a reference."""
    d = op_def_registry.get(nd.op)
    if d is None:
        return []
    out = []
    for a in d.input_arg:
        n = 1
        if a.number_attr and a.number_attr in nd.attr:
            n = nd.attr[a.number_attr].i
        elif a.type_list_attr and a.type_list_attr in nd.attr:
            n = len(nd.attr[a.type_list_attr].list.type)
        out += [bool(a.is_ref)] * int(n)
    return out


def executed_graph(graphs):
    """The nodes of the graphs the runtime executed for one run, in an order compatible with their edges."""
    by = {n.name: n for g in graphs for n in g.node}
    src = {}
    for n in by.values():
        ins, ctl = [], []
        for k in n.input:
            if k.startswith("^"):
                ctl.append(k[1:])
            else:
                ins.append(k.split(":")[0])
        src[n.name] = (ins, ctl)
    order, mark, stack = [], {}, [(k, False) for k in sorted(by)]
    while stack:
        k, leave = stack.pop()
        if leave:
            mark[k] = 2
            order.append(k)
        elif k not in mark:
            mark[k] = 1
            stack.append((k, True))
            for p in src[k][0] + src[k][1]:
                if mark.get(p) == 1:
                    return None
                if p not in mark:
                    stack.append((p, False))
    ix = {k: n + 1 for n, k in enumerate(order)}
    nodes = []
    for k in order:
        refs = ref_args(by[k])
        ins = [dict(n=ix[p], ref=refs[q] if q < len(refs) else False) for q, p in enumerate(src[k][0])]
        nodes.append(dict(t=by[k].op, ins=ins, ctl=[ix[p] for p in src[k][1]], get=by[k].op == "_Retval", name=k))
    return nodes


def run_graph(graph, fetches, feed):
    fed = set()
    for k in (feed or {}):
        fed.add(elem(graph, k)[1].name)
    got = [elem(graph, f) for f in flat_fetches(fetches)]
    order = closure([o for o, _ in got], fed)
    if order is None:
        return None
    ix = {o: k + 1 for k, o in enumerate(order)}
    gets = {o for o, t in got if t is not None}
    nodes = []
    for o in order:
        refs = takes_ref(o)
        ins = [dict(n=ix[t.op], ref=r) for t, r in zip(o.inputs, refs) if t.name not in fed]
        nodes.append(dict(t=o.type, ins=ins, ctl=[ix[p] for p in o.control_inputs if p in ix], get=o in gets, name=o.name))
    return nodes


class Watch:
    """Collects the runs of one training."""

    def __init__(self, keep):
        self.runs, self.seen, self.on, self.keep, self.log = [], {}, False, keep, []

    def before(self, sess, fetches, feed):
        if not self.on:
            return
        key = self.key(sess, fetches, feed)
        names = key[1]
        if key in self.seen:
            self.seen[key]["times"] += 1
        else:
            r = dict(names=list(names), g=run_graph(sess.graph, fetches, feed), times=1, key=key)
            self.seen[key] = r
            self.runs.append(r)
        if self.keep:
            self.log.append((list(names), {elem(sess.graph, k)[1].name: np.array(v) for k, v in (feed or {}).items()}))

    @property
    def graphs(self):
        return self.on

    def executed(self, sess, fetches, feed, md):
        for r in self.runs:
            if r["key"] == self.key(sess, fetches, feed) and "x" not in r:
                r["x"] = executed_graph(md.partition_graphs)

    def key(self, sess, fetches, feed):
        names = tuple(sorted(o.name if t is None else t.name for o, t in (elem(sess.graph, f) for f in flat_fetches(fetches))))
        return id(sess.graph), names, tuple(sorted(elem(sess.graph, k)[1].name for k in (feed or {})))

    def after(self, sess, fetches, feed):
        pass


def build_train(job, w):
    """Builds and trains the models of the job; the runs are seen by w."""
    from tensorD.factorization.env import Environment
    tmp = tempfile.mkdtemp(prefix="og-")
    g = tf.Graph()
    try:
        with g.as_default(), common.quiet():
            tf.set_random_seed(job.get("seed", 1))
            ms = []
            for n, spec in enumerate(job["models"]):
                x = arr(spec["X"], spec.get("xdt", "float32"))
                env = tr.SpyEnv(tr.ArrayProvider(tf.constant(x) if spec["kind"] == "pitf" else x), summary_path=os.path.join(tmp, str(n)))
                env.spy = w
                cls, args = tr.KINDS[spec["kind"]]
                m = cls(env)
                ms.append(m)
                m.build_model(args(**spec["args"]))
            w.on = True
            for k, steps in job["trains"]:
                ms[k].train(steps)
            w.on = False
    finally:
        w.on = False
        shutil.rmtree(tmp, True)
    return g


# ---- forced schedules ------------------------------------------------------
def extension(nodes, mode, rng):
    """A linear extension of the run's order: writes as early as possible, as late, or at random."""
    n = len(nodes)
    pred = [set([i["n"] - 1 for i in x["ins"]] + [c - 1 for c in x["ctl"]]) for x in nodes]
    succ = [[] for _ in nodes]
    for k, ps in enumerate(pred):
        for p in ps:
            succ[p].append(k)
    w = [x["t"] in WRITES for x in nodes]
    first = set(range(n))
    ws = [k for k in range(n) if w[k]]
    if ws and mode != "random":
        one = rng.choice(ws)
        if mode == "early":             # this write, with what it needs, before all else
            first, todo = set(), [one]
            while todo:
                k = todo.pop()
                if k not in first:
                    first.add(k)
                    todo += list(pred[k])
        else:                           # all that does not need this write before it
            desc = {one}
            for k in range(n):
                if pred[k] & desc:
                    desc.add(k)
            first -= desc
    key = [0 if k in first else 1 for k in range(n)]
    deg = [len(p) for p in pred]
    ready = [k for k in range(n) if deg[k] == 0]
    out = []
    while ready:
        b = min(key[k] for k in ready)
        k = rng.choice([r for r in ready if key[r] == b])
        ready.remove(k)
        out.append(k + 1)
        for s in succ[k]:
            deg[s] -= 1
            if deg[s] == 0:
                ready.append(s)
    return out


def forced(gd, nodes, ext):
    """The graph with control edges along the extension."""
    out = tf.GraphDef()
    out.CopyFrom(gd)
    by = {n.name: n for n in out.node}
    chain = [k for k in ext if nodes[k - 1]["t"] not in ("VariableV2", "Variable", "Const")]
    for a, b in zip(chain, chain[1:]):
        nb = by[nodes[b - 1]["name"]]
        if "^" + nodes[a - 1]["name"] not in nb.input:
            nb.input.append("^" + nodes[a - 1]["name"])
    return out


def crc(v):
    v = np.ascontiguousarray(v)
    return zlib.crc32(v.tobytes() + repr((v.shape, str(v.dtype))).encode()) & 0x3fffffff


def variables(gd):
    return [n.name for n in gd.node if n.op in ("VariableV2", "Variable")]


def one_run(gd, state, names, feed):
    """Runs the fetches on the graph from the given variable contents; returns (values, contents after)."""
    g = tf.Graph()
    with g.as_default():
        tf.import_graph_def(gd, name="")
        vs = variables(gd)
        with tf.Session() as s:
            for v in vs:
                if v in state:
                    t = g.get_tensor_by_name(v + ":0")
                    ph = tf.placeholder(t.dtype.base_dtype, state[v].shape)
                    s.run(tf.assign(t, ph).op, {ph: state[v]})
            got = s.run(names, feed)
            vals = [x for x in got if x is not None]
            after = {}
            for v in vs:
                t = g.get_tensor_by_name(v + ":0")
                if s.run(tf.is_variable_initialized(t)):
                    after[v] = s.run(t)
            return vals, after


def schedules(job, w, g):
    """Replays the runs of the training, each under several orders, on from the first order's contents."""
    rng = random.Random(job["seed"])
    gd = g.as_graph_def()
    state, recs = {}, []
    for names, feed in w.log[:job["sched"]["runs"]]:
        nodes = [r["g"] for r in w.runs if sorted(names) == sorted(r["names"])][0]
        if any(x["t"] in ("RandomUniform", "RandomStandardNormal", "TruncatedNormal", "RandomShuffle", "RandomUniformInt", "Multinomial")
               for x in nodes):
            # a draw: not comparable between sessions; its result is the next state
            vals, state = one_run(gd, state, names, feed)
            continue
        exts, outs, nxt = [], [], None
        for k in range(job["sched"]["orders"]):
            ext = extension(nodes, ("early", "late", "random")[k % 3], rng)
            vals, after = one_run(forced(gd, nodes, ext), state, names, feed)
            exts.append(ext)
            outs.append([crc(v) for v in vals] + [crc(after[v]) for v in sorted(after)])
            if nxt is None:
                nxt = after
        recs.append(dict(g=nodes, exts=exts, outs=outs, names=names))
        state = nxt
    return recs


def run_all(jobs, emit):
    for job in jobs:
        rec = dict(id=job["id"], kinds=[m["kind"] for m in job["models"]], order=len(job["models"][0]["X"]["s"]))
        w = Watch("sched" in job)
        try:
            g = build_train(job, w)
            rec["runs"] = w.runs
            if "sched" in job:
                rec["runs"] = [r for r in w.runs if r["g"] is None]
                rec["sched"] = schedules(job, w, g)
        except Exception as e:
            rec.update(err=err_name(e), msg=str(e)[:300])
        # the graphs as executed
        rec["exec"] = [dict(names=r["names"], g=r["x"]) for r in w.runs if "x" in r]
        for r in w.runs:
            r.pop("x", 0)
            r.pop("key")
        emit(rec)


if __name__ == "__main__":
    common.main(run_all)
