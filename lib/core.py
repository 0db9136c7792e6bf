"""Shared machinery of the checks: scratch space, TLC runs, driver runs, verdicts, evidence."""
import atexit, json, os, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TENSORD_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(VERIF, "drv")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    """The check itself could not do its work (never a verdict on the code)."""


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="tdv-%s-" % prop)
        atexit.register(shutil.rmtree, self.dir, True)
        self.violations = []          # (case, clause)
        self.known = []               # (entry, case)
        self.mc = []                  # design-level model checking results
        self.samples = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.kinds = {}
        self.notes = []
        self.note_counts = {}
        self._cls = None
        self._n = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def path(self, name):
        return os.path.join(self.dir, name)

    def fresh(self, stem):
        self._n += 1
        return self.path("%s-%d" % (stem, self._n))

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---- TLC ---------------------------------------------------------------
    def classes(self):
        if self._cls is None:
            d = self.path("cls")
            os.makedirs(d)
            src = sorted(os.path.join(SPEC, "java", f) for f in os.listdir(os.path.join(SPEC, "java"))
                         if f.endswith(".java"))
            r = subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", d] + src,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise MachineryError("javac failed:\n" + r.stdout)
            self._cls = d
        return self._cls

    def tlc(self, module, cfg=None, env=None, workers=NCPU, timeout=600, extra=(), heap="6g"):
        """Runs TLC on spec/<module>.tla. Returns (exit code, output)."""
        md = self.fresh("md")
        os.makedirs(md)
        cfgp = cfg if cfg and os.path.isabs(cfg) else os.path.join(SPEC, (cfg or module) + ("" if cfg and cfg.endswith(".cfg") else ".cfg"))
        cmd = ["java", "-XX:+UseParallelGC", "-Xss256m", "-Xmx" + heap, "-DTLA-Library=" + SPEC,
               "-cp", self.classes() + ":" + JARS, "tlc2.TLC", "-workers", str(workers),
               "-metadir", md, "-noGenerateSpecTE", "-config", cfgp] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        out = self.fresh("tlc-out")
        with open(out, "w") as f:
            try:
                rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=md, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                rc = -1
        with open(out) as f:
            text = f.read()
        shutil.rmtree(md, True)
        return rc, text

    def model_check(self, module, cfg=None, expect="ok", note="", workers=NCPU, timeout=600, extra=()):
        """Design-level model checking; expect is 'ok' or the name of the invariant/property that must fail."""
        t = time.time()
        rc, out = self.tlc(module, cfg, workers=workers, timeout=timeout, extra=extra)
        gen, dist = states_of(out)
        ok = rc == 0 and "No error has been found" in out
        if expect == "ok":
            if not ok:
                raise MachineryError("model %s/%s: expected no error, TLC says:\n%s" % (module, cfg, tail(out)))
        else:
            if rc == 0 or expect not in out:
                raise MachineryError("model %s/%s: expected %s to fail, TLC says:\n%s" % (module, cfg, expect, tail(out)))
        self.mc.append(dict(module=module, cfg=cfg or module, expect=expect, states=dist, generated=gen,
                            wall_s=round(time.time() - t, 1), note=note))
        self.states += dist
        self.transitions += gen
        return out

    def generate(self, module, cfg=None, env=None, timeout=300, workers=NCPU):
        """Runs a generator module, which writes a JSON file to OUT_FILE; returns its content."""
        out = self.fresh("gen") + ".json"
        e = dict(env or {})
        e["OUT_FILE"] = out
        rc, text = self.tlc(module, cfg, env=e, timeout=timeout, workers=workers)
        if rc != 0 or not os.path.exists(out):
            raise MachineryError("generator %s failed:\n%s" % (module, tail(text)))
        gen, dist = states_of(text)
        self.states += dist
        self.transitions += gen
        with open(out) as f:
            return json.load(f)

    # ---- drivers -----------------------------------------------------------
    def drive(self, driver, jobs, shards=NCPU, timeout=600, shape=None):
        """Runs jobs (list of dicts) through drv/<driver>.py in parallel; returns the records in job order."""
        for n, j in enumerate(jobs):
            j.setdefault("id", n + 1)
        shards = max(1, min(shards, len(jobs)))
        parts = [jobs[k::shards] for k in range(shards)]

        def one(k):
            inp, outp = self.fresh("jobs%d" % k), self.fresh("recs%d" % k)
            cwd = self.fresh("cwd%d" % k)
            os.makedirs(cwd)
            with open(inp, "w") as f:
                json.dump(parts[k], f)
            env = dict(os.environ)
            env.update(PYTHONDONTWRITEBYTECODE="1", TF_CPP_MIN_LOG_LEVEL="3", CUDA_VISIBLE_DEVICES="",
                       PYTHONWARNINGS="ignore", PYTHONHASHSEED="0", TMPDIR=cwd, TENSORD_REPO=REPO,
                       PYTHONPATH="/opt/vp/plugin:%s:%s" % (REPO, DRV), OMP_NUM_THREADS="1",
                       TF_NUM_INTRAOP_THREADS="2", TF_NUM_INTEROP_THREADS="2")
            for v in ("VERIF_SEED", "VERIF_TIER"):
                env.pop(v, None)
            with open(outp + ".log", "w") as lf:
                try:
                    rc = subprocess.run([PY, os.path.join(DRV, driver + ".py"), inp, outp], stdout=lf,
                                        stderr=subprocess.STDOUT, cwd=cwd, env=env, timeout=timeout).returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
            recs = []
            if os.path.exists(outp):
                with open(outp) as f:
                    for line in f:
                        if line.endswith("\n"):
                            recs.append(json.loads(line))
            shutil.rmtree(cwd, True)
            with open(outp + ".log") as lf:
                return rc, recs, lf.read()

        with cf.ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(one, range(shards)))
        byid = {}
        for k, (rc, recs, log) in enumerate(res):
            for r in recs:
                byid[r["id"]] = r
            missing = [j for j in parts[k] if j["id"] not in byid]
            if missing:
                if rc == 0:
                    raise MachineryError("driver %s lost jobs\n%s" % (driver, tail(log)))
                first = missing[0]
                if rc == "timeout" or (isinstance(rc, int) and rc < 0):
                    # the code under test hung or killed the process on the first unfinished job
                    byid[first["id"]] = dict(first, err="Hang" if rc == "timeout" else "Crash")
                    self.notes.append("driver %s: job %s %s; %d jobs not run" % (driver, first["id"], rc, len(missing) - 1))
                    for j in missing[1:]:
                        byid[j["id"]] = None
                else:
                    raise MachineryError("driver %s exited with %s:\n%s" % (driver, rc, tail(log)))
        return [byid[j["id"]] for j in jobs if byid[j["id"]] is not None]

    # ---- verdicts ----------------------------------------------------------
    def judge(self, module, records, cfg=None, timeout=800, env=None, kind=None, expect_states=None, workers=NCPU, heap="12g", done=False):
        """Lets TLC evaluate the trace module on the records; collects the failing ones."""
        if not records:
            return {}
        whole, broken = records, []
        while True:
            f = self.fresh("trace") + ".json"
            with open(f, "w") as fh:
                json.dump(records, fh, separators=(",", ":"))
            e = dict(env or {})
            e["TRACE_FILE"] = f
            rc, out = self.tlc(module, cfg, env=e, timeout=timeout, workers=workers, heap=heap)
            gen, dist = states_of(out)
            if rc == 0 and "No error has been found" in out:
                break
            # a record the specification has no meaning for (a value that is missing or not a number) is no behaviour of it
            at = re.findall(r"^(?:/\\ )?(?:pos|c) = (\d+)\s*$", out, re.M)
            if not at or "rror" not in out or "OutOfMemory" in out or "StackOverflow" in out or rc == -1 or int(at[-1]) > len(records):
                raise MachineryError("trace module %s: TLC exit %s\n%s" % (module, rc, tail(out)))
            broken.append(records[int(at[-1]) - 1])
            records = [r for r in records if r is not broken[-1]]
            self.log("no meaning for record %s:" % broken[-1]["id"], " ".join(out[out.find("Error:"):].split())[:700])
            if not records or len(broken) > 5 or time.time() - self.t0 > 400:
                self.notes.append("%s: %d records not judged after %d without a meaning" % (module, len(records), len(broken)))
                records, out, gen, dist = [], "", 0, 0
                break
        want = None if done else len(records) if expect_states is None else expect_states(records)
        if want is not None and dist != want:
            raise MachineryError("trace module %s visited %d states for %d expected" % (module, dist, want))
        verdicts = {}
        flat = re.sub(r"\s*\n\s+", " ", out)
        for m in re.finditer(r'<<\s*"(FAIL|SKIP|NOTE)",\s*(\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', flat):
            tag, cid, clause = m.group(1), int(m.group(2)), m.group(3)
            verdicts.setdefault(cid, []).append((tag, clause))
        if done:
            fin = {int(m.group(1)) for m in re.finditer(r'<<\s*"DONE",\s*(\d+),', flat)}
            fin |= {cid for cid, vs in verdicts.items() if any(t in ("FAIL", "SKIP") for t, _ in vs)}
            lost = [r["id"] for r in records if r["id"] not in fin]
            if lost:
                raise MachineryError("trace module %s gave no verdict on cases %s" % (module, lost[:10]))
        nprint = len(re.findall(r'"(?:FAIL|SKIP|NOTE)",', flat))
        if nprint != sum(len(v) for v in verdicts.values()):
            raise MachineryError("unparsed verdict lines from %s:\n%s" % (module, tail(out)))
        self.states += dist
        self.transitions += gen
        self.traces += len(records)
        self.evaluations += len(records)
        for r in broken:
            verdicts[r["id"]] = [("FAIL", "the record has no meaning in the specification: a value is missing or not a number")]
        byid = {r["id"]: r for r in whole}
        skipped = 0
        for cid, vs in sorted(verdicts.items()):
            for tag, clause in vs:
                if tag == "FAIL":
                    self.violations.append((module, byid[cid], clause))
                elif tag == "SKIP":
                    skipped += 1
                    self.note_counts[clause] = self.note_counts.get(clause, 0) + 1
                else:
                    self.note_counts[clause] = self.note_counts.get(clause, 0) + 1
        k = kind or module
        a = self.kinds.setdefault(k, dict(cases=0, skipped=0, failed=0))
        a["cases"] += len(records)
        a["skipped"] += skipped
        a["failed"] += sum(1 for v in verdicts.values() if any(t == "FAIL" for t, _ in v))
        return verdicts


def states_of(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def tail(s, n=3500):
    s = "\n".join(l for l in s.splitlines() if not l.startswith(("Parsing file", "Semantic processing", "Linting of", "Loading ")))
    return s[-n:]


# ---- known findings --------------------------------------------------------
def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def matches(entry, prop, case, clause):
    if entry.get("property") != prop or entry.get("clause") != clause:
        return False
    return all(case.get(k) == v for k, v in entry["match"].items())


def shorten(x, n=1500):
    s = json.dumps(x, separators=(",", ":"))
    return s if len(s) <= n else s[:n] + "..."


def finish(ctx, level, rule, assumptions, exhaustive=None, extra=None):
    """Prints the verdict, writes the evidence file, returns the exit code."""
    known = known_findings()
    real, seen = [], {}
    for module, case, clause in ctx.violations:
        for e in known:
            if e.get("status") == "known" and matches(e, ctx.prop, case, clause):
                seen.setdefault(e["what"], 0)
                seen[e["what"]] += 1
                break
        else:
            real.append((module, case, clause))
    for what, n in seen.items():
        print("KNOWN-FINDING: property=%s %s (%d cases)" % (ctx.prop, what, n))
    rc = 0
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    if real:
        rc = 1
        rp = os.path.join(edir, "replay-%s.json" % ctx.prop)
        with open(rp, "w") as f:
            json.dump([dict(module=m, clause=c, case=k) for m, k, c in real[:20]], f)
        for m, k, c in real[:5]:
            ctx.log("violated clause: %s | %s" % (c, shorten({a: b for a, b in k.items() if a not in ("trace", "runs")}, 600)))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, rp), flush=True)
    cov = dict(states=ctx.states, transitions=ctx.transitions,
               traces_validated_against_impl=ctx.traces,
               evaluations=ctx.evaluations,
               distinct_nontrivial=ctx.evaluations - sum(k["skipped"] for k in ctx.kinds.values()),
               rule=rule, samples=[shorten(s, 900) for s in ctx.samples[:4]] or ["none"],
               kinds=ctx.kinds, model_checking=ctx.mc)
    if getattr(ctx, "controls", None):
        cov["controls"] = ctx.controls
    if ctx.note_counts:
        cov["notes"] = ctx.note_counts
    if exhaustive is not None:
        cov["exhaustive"] = exhaustive
    if extra:
        cov.update(extra)
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov,
              assumptions=list(assumptions) + ctx.notes[:20], wall_s=round(time.time() - ctx.t0, 2), violations=len(real))
    with open(os.path.join(edir, ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    ctx.log("done: %d records judged by TLC, %d violations, %d states" % (ctx.traces, len(real), ctx.states))
    return rc
