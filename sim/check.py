"""python -m sim.check <ID>   (environment: VERIF_SEED, VERIF_TIER)

Builds /repo's working tree into a scratch directory, runs seeded simulations of
property <ID> on it, minimises and writes out the first violation, writes
evidence/<ID>.json.  Exit 0: held on everything explored; 1: violation; 2: error."""
from concurrent.futures import ThreadPoolExecutor
import argparse, hashlib, importlib, json, os, queue, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from sim import build as B

NWORK = int(os.environ.get("VERIF_WORKERS", "8"))


class Pool:
    def __init__(self, pkgdir, prop, scratch, n=NWORK, hashseeds=("0",)):
        self.pkgdir, self.prop, self.scratch = pkgdir, prop, scratch
        self.workers = []
        for i in range(n):
            self.workers.append(self._start(i, hashseeds[i % len(hashseeds)]))
        for w in self.workers:
            line = w.stdout.readline()
            if not line:
                raise RuntimeError("worker did not start:\n" + self._err(w))

    def _start(self, i, hs):
        base = os.path.join(self.scratch, "w%d" % i)
        os.makedirs(base, exist_ok=True)
        env = {k: v for k, v in os.environ.items() if not k.startswith(("VERIF", "PYTHON"))}
        env.update(PYTHONHASHSEED=hs, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", LC_ALL="C.UTF-8", TZ="UTC",
                   HOME=self.scratch, MPLCONFIGDIR=self.scratch, MALLOC_ARENA_MAX="1")
        errf = open(os.path.join(base, "stderr"), "wb")
        p = subprocess.Popen([B.PY, "-W", "ignore", "-m", "sim.worker", self.pkgdir, self.prop, base, VERIF],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=errf, text=True,
                             env=env, cwd=VERIF, bufsize=1)
        p.errpath = os.path.join(base, "stderr")
        errf.close()
        return p

    def _err(self, w):
        try:
            return open(w.errpath).read()[-3000:]
        except OSError:
            return ""

    def ask(self, w, req):
        try:
            w.stdin.write(json.dumps(req) + "\n")
            w.stdin.flush()
            line = w.stdout.readline()
        except (BrokenPipeError, OSError):
            line = ""
        if not line:
            return dict(status="harness", kind="worker-died", detail=self._err(w))
        return json.loads(line)

    def map(self, reqs, stop=lambda r: False, deadline=None):
        """run requests on all workers; yields replies as they come"""
        q = queue.Queue()
        it = iter(reqs)
        lock = threading.Lock()
        halt = threading.Event()

        def loop(w):
            while not halt.is_set():
                if deadline and time.monotonic() > deadline:
                    break
                with lock:
                    r = next(it, None)
                if r is None:
                    break
                q.put(self.ask(w, r))
            q.put(None)

        ths = [threading.Thread(target=loop, args=(w,), daemon=True) for w in self.workers]
        for t in ths:
            t.start()
        left = len(ths)
        while left:
            r = q.get()
            if r is None:
                left -= 1
                continue
            yield r
            if stop(r):
                halt.set()

    def close(self):
        for w in self.workers:
            try:
                w.stdin.close()
            except OSError:
                pass
        for w in self.workers:
            try:
                w.wait(5)
            except subprocess.TimeoutExpired:
                w.kill()
                w.wait()


def run_seed(seed, prop, i):
    return int.from_bytes(hashlib.sha256(("%d/%s/%d" % (seed, prop, i)).encode()).digest()[:6], "big")


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", [])]


def same(a, b):
    return a["status"] == b["status"] == "violation" and a["kind"] == b["kind"]


def minimise(pool, prop, first, known, budget):
    """greedy parallel shrinking: ops, faults, schedule, then what the property offers"""
    best = first
    t_end = time.monotonic() + budget
    tried = 0
    improved = True
    while improved and time.monotonic() < t_end:
        improved = False
        cands = list(candidates(best["plan"], prop))
        step = max(1, len(pool.workers))
        i = 0
        while i < len(cands) and time.monotonic() < t_end:
            batch = cands[i:i + step]
            i += step
            reqs = [dict(n=j, plan=c, known=known, timeout=prop.TIMEOUT) for j, c in enumerate(batch)]
            good = []
            for r in pool.map(reqs):
                tried += 1
                if r["status"] == "violation" and r["kind"] == best["kind"]:
                    r["plan"] = batch[r["req"]]
                    good.append(r)
            if good:
                best = min(good, key=lambda r: r["req"])
                improved = True
                break
    return best, tried


def candidates(plan, prop):
    ops = plan.get("ops")
    if isinstance(ops, list) and len(ops) > 1:
        n = len(ops)
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                rest = ops[:a] + ops[a + size:]
                if rest:
                    yield dict(plan, ops=rest)
            size //= 2
    for key in ("faults", "schedule"):
        xs = plan.get(key)
        if isinstance(xs, list) and xs:
            yield dict(plan, **{key: []})
            size = len(xs) // 2
            while size >= 1:
                for a in range(0, len(xs), size):
                    yield dict(plan, **{key: xs[:a] + xs[a + size:]})
                size //= 2
    if plan.get("read_chunk"):
        yield dict(plan, read_chunk=0)
    if plan.get("buffer"):
        yield dict(plan, buffer=0)
    if isinstance(ops, list):
        for i, op in enumerate(ops):
            if isinstance(op, dict) and op.get("fault"):
                o = dict(op)
                o.pop("fault")
                yield dict(plan, ops=ops[:i] + [o] + ops[i + 1:])
    f = getattr(prop, "shrink", None)
    if f:
        yield from f(plan)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--index", type=int, help="only this run index")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.monotonic()
    prop = importlib.import_module("sim.props." + a.property.lower())
    scratch = tempfile.mkdtemp(prefix="pyscal-sim-")
    try:
        return run_check(a, prop, scratch, t0)
    except B.BuildError as e:
        print("ERROR build failed: %s" % e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_check(a, prop, scratch, t0):
    print("property=%s tier=%s seed=%d" % (prop.ID, a.tier, a.seed), flush=True)
    repo = B.REPO
    pkgdir, digest = B.build(os.path.join(scratch, "build"), repo)
    t_build = time.monotonic() - t0
    known = [k for k in load_known() if k["property"] == prop.ID]
    nruns = a.runs or (prop.QUICK if a.tier == "quick" else prop.THOROUGH)
    cap = getattr(prop, "CAP_QUICK", 110) if a.tier == "quick" else getattr(prop, "CAP_THOROUGH", 600)
    pool = Pool(pkgdir, prop.ID, os.path.join(scratch, "work"), hashseeds=("0", "1", "4242", "7"))
    try:
        t1 = time.monotonic()
        idx = [a.index] if a.index is not None else range(nruns)
        reqs = (dict(n=i, seed=run_seed(a.seed, prop.ID, i), tier=a.tier, known=known,
                     timeout=prop.TIMEOUT, keep_plan=(i < 3)) for i in idx)
        agg = Agg()
        it = iter(reqs)
        harness, unconfirmed, vio, best, tried = [], [], None, None, 0
        t_run = 0.0
        # a violation counts if it can be repeated exactly; if not, the search goes on
        for _ in range(6):
            t2 = time.monotonic()
            new = []
            for r in pool.map(it, stop=lambda r: r["status"] == "violation" or len(harness) > 10, deadline=t1 + cap):
                agg.add(r)
                if a.verbose:
                    print(r["req"], r["status"], r.get("kind"), "%.2fs" % r["wall"], r.get("steps"), r.get("probes"), flush=True)
                if r["status"] == "harness":
                    harness.append(r)
                elif r["status"] != "ok":
                    new.append(r)
            t_run += time.monotonic() - t2
            for v in sorted(new, key=lambda r: r["req"]):
                req = dict(n=0, known=known, timeout=min(100, prop.TIMEOUT) if v["kind"] == "hang" else prop.TIMEOUT)
                if "plan" not in v:
                    v["plan"] = gen_plan(prop, dict(seed=run_seed(a.seed, prop.ID, v["req"]), tier=a.tier))
                req["plan"] = v["plan"]
                with ThreadPoolExecutor(min(2, len(pool.workers))) as ex:
                    c1, c2 = ex.map(lambda w: pool.ask(w, req), (pool.workers[0], pool.workers[-1]))
                if same(v, c1) and same(v, c2) and c1.get("digest") == c2.get("digest") == v.get("digest"):
                    vio = v
                    break
                if v["kind"] == "hang" and c1["status"] == c2["status"] == "ok":
                    print("NOTE run %s took too long once, and not when it was repeated" % v["req"])
                    continue
                unconfirmed.append((v, c1, c2))
            if vio is not None or not new or len(harness) > 10 or time.monotonic() > t1 + cap:
                break
        code = 0
        if vio is not None and vio["kind"] == "hang":
            best = vio
        elif vio is not None:
            best, tried = minimise(pool, prop, vio, known, getattr(prop, "SHRINK_S", 60))
        elif unconfirmed:
            # the code does not do the same twice
            for v, c1, c2 in unconfirmed[:3]:
                print("NOTE run %s is not exactly reproducible: %s %s %s / %s %s %s / %s %s %s" % (
                    v["req"], v["kind"], v["detail"][:300], v.get("digest"), c1["status"], c1.get("kind"), c1.get("digest"),
                    c2["status"], c2.get("kind"), c2.get("digest")))
            again = [v for v, c1, c2 in unconfirmed if same(v, c1) or same(v, c2)]
            if again or len(unconfirmed) > 1:
                vio = best = (again or [unconfirmed[0][0]])[0]
        if vio is not None:
            rep = write_replay(a, prop, best, vio, digest, tried)
            print("minimised after %d runs: %s: %s" % (tried, best["kind"], best["detail"][:600]))
            print("VIOLATION property=%s replay=%s" % (prop.ID, rep), flush=True)
            code = 1
        elif harness or unconfirmed:
            for r in harness[:3]:
                print("ERROR in run %s: %s %s" % (r["req"], r.get("kind"), r.get("detail")))
            code = 2
        elif agg.runs < min(nruns, getattr(prop, "MIN_RUNS", max(20, nruns // 10))) and a.index is None:
            print("ERROR only %d of %d runs finished in time" % (agg.runs, nruns))
            code = 2
        for k in known:
            if agg.known.get(k["id"]):
                print("KNOWN-FINDING: property=%s %s (seen in this run %d times)" % (prop.ID, k["what"], agg.known[k["id"]]))
            else:
                print("KNOWN-FINDING: property=%s %s" % (prop.ID, k["what"]))
        ev = agg.evidence(a, prop, digest, t_build, t_run, nruns, known)
        ev["violations"] = 1 if code == 1 else 0
        ev["wall_s"] = round(time.monotonic() - t0, 2)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", prop.ID + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
        os.replace(tmp, tmp[:-4])
        print("runs=%d distinct=%d states=%d steps=%d build=%.1fs run=%.1fs (%.0f runs/h) faults=%s exit=%d" % (
            agg.runs, len(agg.digests), len(agg.states), agg.steps, t_build, t_run,
            3600 * agg.runs / max(t_run, 1e-9), json.dumps(agg.faults, sort_keys=True), code))
        return code
    finally:
        pool.close()


def gen_plan(prop, g):
    import random
    rng = random.Random(g["seed"])
    plan = prop.gen(rng, g["tier"])
    plan["property"], plan["seed"] = prop.ID, g["seed"] & 0x7fffffff
    plan.setdefault("fill", rng.getrandbits(31) | 1)
    return json.loads(json.dumps(plan))


def write_replay(a, prop, best, first, digest, tried):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-seed%d-run%s.json" % (prop.ID, a.seed, first["req"]))
    doc = dict(property=prop.ID, verif_seed=a.seed, run=first["req"], kind=best["kind"], detail=best["detail"],
               digest=best.get("digest"), source_digest=digest, plan=best["plan"],
               original=dict(kind=first["kind"], detail=first["detail"], plan=first["plan"]),
               shrink_runs=tried, how="python -m sim.replay " + p)
    with open(p, "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    return p


class Agg:
    def __init__(self):
        self.runs = self.steps = self.ops = self.nontrivial = 0
        self.digests, self.nt_digests, self.states = set(), set(), set()
        self.faults, self.probes, self.io, self.known = {}, {}, {}, {}
        self.samples = []
        self.run_wall = 0.0

    def add(self, r):
        self.runs += 1
        self.run_wall += r.get("wall", 0)
        self.steps += r.get("steps", 0)
        self.ops += r.get("ops", 0)
        d = r.get("digest")
        self.digests.add(d)
        if r.get("nontrivial"):
            self.nt_digests.add(d)
        self.states.update(r.get("states", ()))
        for name in ("faults", "probes", "io", "known"):
            mine = getattr(self, name)
            for k, v in (r.get(name) or {}).items():
                mine[k] = mine.get(k, 0) + v
        if r.get("plan") and len(self.samples) < 2:
            s = json.dumps(r["plan"])
            self.samples.append(r["plan"] if len(s) < 4000 else s[:4000] + "...")

    def evidence(self, a, prop, digest, t_build, t_run, nruns, known):
        per_h = 3600.0 / max(t_run, 1e-9)
        cov = dict(
            evaluations=self.runs,
            distinct_nontrivial=len(self.nt_digests),
            rule=prop.RULE,
            samples=self.samples,
            runs_planned=nruns,
            operations_on_real_code=self.ops,
            runs_per_hour=round(self.runs * per_h),
            seeds_per_hour=round(self.runs * per_h),
            simulated_time_steps=self.steps,
            simulated_time_unit="scheduler ticks: executed source lines of the package (where lines are traced) and raw disk operations",
            faults_injected=self.faults,
            disk_operations=self.io,
            probes=self.probes,
            distinct_states=len(self.states),
            distinct_states_measure=getattr(prop, "STATES", "interleavings (hash of all context switches with their tick) and states noted by the workload"),
            distinct_event_logs=len(self.digests),
            real_components=getattr(prop, "REAL", REAL),
            stub_components=getattr(prop, "STUB", STUB),
            source_digest=digest,
            build_s=round(t_build, 2),
            known_findings_seen=self.known,
            exhaustive=False,
        )
        return dict(property=prop.ID, tier=a.tier, seed=a.seed, level="exploration", coverage=cov,
                    assumptions=getattr(prop, "ASSUME", []))


REAL = ["all of pyscal's Python code", "pyscal's C++ extension modules and voro++ (compiled from the working tree)",
        "numpy, scipy, ase", "CPython's buffered and text I/O layers, gzip"]
STUB = ["raw files under the run's scratch directory (simulated disk over real files)",
        "thread scheduling (baton passing)", "operator new/delete of the extension modules",
        "random, numpy.random, uuid4 and time (seeded)"]

if __name__ == "__main__":
    sys.exit(main())
