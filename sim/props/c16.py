"""Angular, chi, entropy, centrosymmetry, short range order and pair distribution describe the present neighbors"""
import itertools
import warnings
import numpy as np
from sim import sysgen as G, world as W, rt
from sim.props import c13

ID = "C16"
QUICK, THOROUGH, TIMEOUT = 600, 30000, 180
RULE = ("a run = a history of configurations, changes and other analyses (some failing), then neighbor searches and angular, chi, entropy, "
        "centrosymmetry, short range order and pair distribution calculations with seeded parameters and failures inside of them; each value is "
        "compared with its definition on the listed neighbors or on explicit periodic images; non-trivial = at least one value was compared")
CHI = np.array([-1.0, -0.945, -0.915, -0.755, -0.705, -0.195, 0.195, 0.245, 0.795, 1.0])
METHODS = ["cut", "cut", "adaptive", "number", "sann", "cutfilter"]
TYPEMAPS = [{1: 1, 2: 2, 3: 3}, {1: 2, 2: 1, 3: 3}, {1: 2, 2: 3, 3: 5}, {1: 1, 2: 2, 3: 2}, {1: 4, 2: 1, 3: 9}, {1: 1, 2: 2, 3: 1}]


def gen(rng, tier):
    specs = W.gen_world(rng, big=.0, sizes=rng.choice([("tiny",), ("small",), ("small", "mid"), ("tiny", "small")]))
    for sp in specs:
        if sp["kind"] == "random":
            sp["dmin"] = max(sp["dmin"], .5)
    ops = []
    kinds = rng.sample(["angular", "chi", "entropy", "sro", "pmsro", "centro", "rdf", "concentration"], rng.choice([2, 3, 8]))
    for _ in range(rng.choice([1, 2, 3])):
        ops += W.gen_history(rng, len(specs))
        if rng.random() < .4:
            ops.append(dict(k="retype", map=rng.randrange(len(TYPEMAPS))))
        ops.append(dict(k="neigh", m=rng.choice(METHODS), seed=rng.getrandbits(20)))
        for _ in range(rng.choice([1, 2, 3])):
            k = rng.choice(kinds)
            op = dict(k=k, seed=rng.getrandbits(20), fault=W.gen_fault(rng, .25, kinds=("alloc", "alloc", "interrupt")))
            if k == "entropy":
                op.update(local=rng.random() < .3, averaged=rng.random() < .7, switch=rng.random() < .5, atra=rng.random() < .4,
                          sigma=rng.choice([.02, .05, .1, .2]), steps=rng.choice([20, 60, 200]), mn=rng.choice([(12, 6), (8, 4), (10, 5)]))
            elif k in ("sro", "pmsro"):
                op.update(shells=rng.choice([1, 2, 2]), average=rng.random() < .6, delta=rng.random() < .6)
            elif k == "centro":
                op.update(nmax=rng.choice([2, 4, 8, 12, 12, 14]), vals=rng.random() < .8)
            elif k == "rdf":
                op.update(bins=rng.choice([1, 5, 20, 77]), lo=rng.choice([0, 0, .3]), full=rng.random() < .2)
            elif k == "chi":
                op.update(angles=rng.random() < .4)
            ops.append(op)
    return dict(specs=specs, ops=ops, trace=False)


def run(plan, ctx):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    w = W.World(ctx, plan["specs"])
    M = None
    for op in plan["ops"]:
        k = op["k"]
        if k == "neigh":
            M = None
            if w.cfg.n > 420:
                continue
            ok, v = ctx.call(c13.find, w, op["m"], op["seed"])
            if ok:
                with ctx.judging():
                    M = c13.Model(w)
                    M.method = op["m"]
            ctx.event(op["m"], w.cfg.n, ok)
        elif k == "retype":
            m = TYPEMAPS[op["map"]]
            w.cfg.types = [m.get(t, t) for t in w.cfg.types]
            ctx.must("assign types", w.assign)
            M = None
        elif k in ("rdf", "concentration"):
            globals()[k](ctx, w, op)
        elif k == "centro":
            if w.cfg.n <= 420:
                centro(ctx, w, op)
                M = None
        elif k in ("angular", "chi", "entropy", "sro", "pmsro"):
            if M is not None:
                globals()[k](ctx, w, M, op)
                failed = op.get("fault") and op["fault"]["op"] == "interrupt"
                if failed:
                    M = None
        else:
            w.history(op)
            M = None
    w.check_config("at the end")


def measure(ctx, w, op, what, fn):
    """the call, maybe failing and repeated"""
    flt = op.get("fault")
    if flt:
        ok, v, fired = w.under_fault(flt, fn)
        if ok:
            return v
        if not fired:
            ctx.fail("unexpected-error", "%s raised %s" % (what, v))
        ctx.probe("retried")
    return ctx.must(what, fn)


def compare(ctx, got, want, kind, what, rel=1e-6, atol=1e-9):
    got, want = np.asarray(got, float), np.asarray(want, float)
    use = np.isfinite(want)
    if not use.any():
        return
    tol = (atol + rel * np.abs(want)) if np.ndim(atol) == 0 else atol + rel * np.abs(want)
    err = np.abs(np.where(np.isfinite(got), got, 1e300) - want)
    bad = use & ~(err <= tol)
    if bad.any():
        i = int(np.argmax(np.where(bad, err, -1)))
        ctx.fail(kind, "%s: atom %d of %d: %r instead of %r" % (what, i, len(got), float(got[i]), float(want[i])))
    ctx.nontrivial = True
    ctx.probe("values_compared", int(use.sum()))


def done(ctx, w, op, *more):
    ctx.state(op["k"], w.cfg.n < 200, w.spec["box"], op.get("fault") and op["fault"]["op"], *more)
    ctx.event(op["k"], w.cfg.n)


def unit(v):
    return v / np.linalg.norm(v, axis=1)[:, None]


def angular(ctx, w, M, op):
    s = w.s
    measure(ctx, w, op, "calculate_angularcriteria", s.calculate_angularcriteria)
    with ctx.judging():
        want = np.full(M.n, np.nan)
        for i in range(M.n):
            v = M.vec[i]
            d = np.linalg.norm(v, axis=1)
            o = np.argsort(d)
            if len(d) > 4 and d[o[4]] - d[o[3]] < 1e-7 * d[o[4]]:
                continue
            u = unit(v[o[:4]])
            want[i] = sum((u[a] @ u[b] + 1 / 3.) ** 2 for a, b in itertools.combinations(range(len(u)), 2))
        compare(ctx, [a.angular for a in s.atoms], want, "wrong-angular", "angular criterion")
    done(ctx, w, op)


def chi(ctx, w, M, op):
    s = w.s
    if M.n > 250 or max(len(h) for h in M.head) > 40:
        return
    r = w.rng(op)
    j = int(r.randint(M.n))

    def put():
        a = s.get_atom(j)
        a.custom = dict(mine=op["seed"])
        s.set_atom(a)
    ctx.must("set a custom value", put)
    measure(ctx, w, op, "calculate_chiparams", lambda: s.calculate_chiparams(angles=op["angles"]))
    with ctx.judging():
        atoms = s.atoms
        for i in range(M.n):
            u = unit(M.vec[i])
            c = (u @ u.T)[np.triu_indices(len(u), 1)]
            got = np.array(atoms[i].chiparams)
            ctx.check(len(got) == 9, "wrong-chi", lambda: "chi parameters of atom %d are %s" % (i, got.tolist()))
            if len(c) and np.abs(c[:, None] - CHI[None, 1:-1]).min() > 1e-9:
                want = np.histogram(np.clip(c, -1, 1), bins=CHI)[0]
                # opposite or equal directions, whose cosine may be rounded beyond 1
                line = np.array([(c < -1 + 1e-12).sum()] + [0] * 7 + [(c > 1 - 1e-12).sum()])
                msg = "chi parameters of atom %d are %s instead of %s" % (i, got.tolist(), want.tolist())
                ctx.check(((got <= want) & (got >= want - line)).all(), "wrong-chi", msg)
                if (got != want).any():
                    ctx.fail("chi-collinear", msg)
                ctx.nontrivial = True
                ctx.probe("values_compared")
            if op["angles"]:
                cc = np.sort(atoms[i].custom["cosines"])
                ctx.check(len(cc) == len(c) and np.allclose(cc, np.sort(c), atol=1e-7), "wrong-cosines", lambda: "cosines of atom %d" % i)
        ctx.check(atoms[j].custom.get("mine") == op["seed"], "custom-lost", lambda: "custom values of atom %d are %s" % (j, atoms[j].custom))
    done(ctx, w, op, op["angles"])


def entropy(ctx, w, M, op):
    s, n = w.s, M.n
    sp = w.spacing()
    sigma = op["sigma"] * sp
    rstart, rm0 = .01 * sp, 1.5 * sp
    h = (rm0 - rstart) / (op["steps"] + .5)
    dist = [np.linalg.norm(v, axis=1) for v in M.vec]
    alld = np.concatenate(dist) if dist else np.zeros(0)
    if not len(alld):
        return
    ra = float(alld[op["seed"] % len(alld)]) if op["atra"] else 1.01 * float(np.median(alld))
    m_, n_ = op["mn"]
    local = op["local"] and M.method in ("cut", "adaptive", "cutfilter")
    kw = dict(sigma=sigma, rstart=rstart, h=h, local=local, averaged=op["averaged"], switching_function=op["switch"], ra=ra, M=m_, N=n_)
    measure(ctx, w, op, "calculate_entropy", lambda: s.calculate_entropy(rm0, **kw))
    with ctx.judging():
        atoms = s.atoms
        rho0 = n / w.cfg.volume()
        want, tol = np.full(n, np.nan), np.zeros(n)

        def integral(d, rho, step, k):
            r = rstart + step * np.arange(k + 1)
            g = np.exp(-(r[:, None] - d[None, :]) ** 2 / (2 * sigma ** 2)).sum(1) / np.sqrt(2 * np.pi * sigma ** 2) / (4 * np.pi * rho * r ** 2)
            f = (np.where(g > 0, g * np.log(np.where(g > 0, g, 1)), 0) - g + 1) * r ** 2
            return step * (f.sum() - .5 * (f[0] + f[-1])), f
        for i in range(n):
            d = dist[i]
            rho = rho0
            if local:
                if not len(d):
                    continue
                rho = len(d) / (4 / 3. * np.pi * atoms[i].cutoff ** 3)
            a, f = integral(d, rho, h, op["steps"])
            # trapezoidal rule of step h; one step less is within its accuracy
            a -= .5 * h * f[-2]
            want[i] = -rho * a
            tol[i] = rho * .5 * h * abs(f[-2]) + 1e-7 * (1 + rho * h * np.abs(f).sum())
        got = np.array([a.entropy for a in atoms])
        compare(ctx, got, want, "wrong-entropy", "entropy (%s)" % ("local" if local else "global"), 1e-7, tol)
        if op["averaged"]:
            # means of the values that are shown
            f = np.ones(len(M.own))
            if op["switch"]:
                x = np.concatenate(dist) / ra
                near = np.abs(x - 1) < 1e-8
                f = np.where(near, n_ / m_, (1 - x ** n_) / (1 - np.where(near, 2, x) ** m_))
            num = got + np.bincount(M.own, f * got[M.allh], n)
            den = 1 + np.bincount(M.own, f, n)
            compare(ctx, [a.avg_entropy for a in atoms], num / den, "wrong-avg-entropy", "averaged entropy%s" % (", switched" * op["switch"]), 1e-5,
                    1e-7 * (1 + np.abs(got[np.isfinite(got)]).max(initial=0)))
    done(ctx, w, op, local, op["averaged"], op["switch"])


def shells_of(M, i, shells):
    """atoms of each shell, None where that is not decided by a margin"""
    h = M.head[i]
    if not len(h):
        return None
    if shells == 1:
        return [h]
    d = np.linalg.norm(M.vec[i], axis=1)
    a = d.mean()
    if np.abs(d - a).min() < 1e-9 * a:
        return None
    return [h[d <= a], h[d > a]]


def order(ctx, w, M, op, ref, value, res, what):
    types = np.array(w.cfg.types)
    atoms = w.s.atoms
    ns = op["shells"]
    want = np.full((M.n, ns), np.nan)
    unsure = False
    for i in range(M.n):
        if types[i] != ref:
            continue
        sh = shells_of(M, i, ns)
        if sh is None or any(len(x) == 0 for x in sh):
            unsure = True
            continue
        want[i] = [value(types[x]) for x in sh]
    got = np.full((M.n, ns), np.nan)
    for i in range(M.n):
        if np.isfinite(want[i, 0]):
            v = list(atoms[i].sro)
            ctx.check(len(v) == ns, "wrong-sro", lambda: "%s: %d values for %d shells" % (what, len(v), ns))
            got[i] = v
    compare(ctx, got.ravel(), want.ravel(), "wrong-sro", what)
    if op["average"]:
        # periodic images may choose another one of equally near atoms
        ties = M.method in ("sann", "number", "adaptive") and w.spec["kind"] != "random" and w.spec.get("noise", 0) < 1e-6
        if not unsure and not ties:
            mean = np.nanmean(want, axis=0)
            ctx.check(np.allclose(np.array(res)[:ns], mean, atol=1e-7), "wrong-mean-sro", lambda: "%s: mean %s instead of %s" % (what, list(res), mean.tolist()))
    else:
        ctx.check(res is None, "wrong-result", "a mean was returned that was not asked for")


def sro(ctx, w, M, op):
    s = w.s
    types = sorted(set(w.cfg.types))
    ref = 1 + op["seed"] % 2
    fn = lambda: s.calculate_sro(reference_type=ref, average=op["average"], shells=op["shells"])
    if not {1, 2} <= set(types):
        ok, v = ctx.call(fn)
        ctx.check(not ok, "accepted", lambda: "short range order of a system with types %s" % types)
        return
    res = measure(ctx, w, op, "calculate_sro", fn)
    if types != [1, 2]:
        return
    with ctx.judging():
        motr = 1 - w.cfg.types.count(ref) / float(M.n)
        order(ctx, w, M, op, ref, lambda t: 1 - np.mean(t != ref) / motr, res, "calculate_sro(%d, shells=%d)" % (ref, op["shells"]))
    done(ctx, w, op, op["shells"], op["average"])


def pmsro(ctx, w, M, op):
    s = w.s
    types = sorted(set(w.cfg.types))
    ref, comp = types[op["seed"] % len(types)], types[op["seed"] // 7 % len(types)]
    for bad in ((77, ref), (ref, 77)):
        ok, v = ctx.call(lambda: s.calculate_pmsro(reference_type=bad[0], compare_type=bad[1]))
        ctx.check(not ok and isinstance(v, ValueError), "accepted", lambda: "type 77 does not exist: %r" % (v,))
    if len(types) == 1:
        return
    res = measure(ctx, w, op, "calculate_pmsro", lambda: s.calculate_pmsro(reference_type=ref, compare_type=comp, average=op["average"],
                                                                          shells=op["shells"], delta=op["delta"]))
    with ctx.judging():
        c = w.cfg.types.count(comp) / float(M.n)
        dl = 1.0 if ref == comp and op["delta"] else 0.0
        # (p - c) / (delta - c)
        order(ctx, w, M, op, ref, lambda t: (np.mean(t == comp) - c) / (dl - c), res, "calculate_pmsro(%d, %d, shells=%d, delta=%s) with types %s"
              % (ref, comp, op["shells"], op["delta"], types))
    done(ctx, w, op, op["shells"], op["average"], op["delta"], ref == comp, types[-1] != len(types))


def centro(ctx, w, op):
    s, nmax = w.s, op["nmax"]
    with ctx.judging():
        half, sp = .5 * w.cellwidth(), (abs(np.linalg.det(w.cfg.box)) / w.cfg.n) ** (1 / 3.)
        im = G.Images(w.cfg, min(half, 3 * sp) * 1.0001)
        near = [im.around(i, min(half, 3 * sp) * (1 - 1e-7)) for i in range(w.cfg.n)]
        enough = min(len(x[0]) for x in near) >= nmax
    if not enough:
        ctx.call(lambda: s.calculate_centrosymmetry(nmax=nmax))
        return
    res = measure(ctx, w, op, "calculate_centrosymmetry", lambda: s.calculate_centrosymmetry(nmax=nmax, get_vals=op["vals"]))
    with ctx.judging():
        want = np.full(w.cfg.n, np.nan)
        for i, (h, v, d) in enumerate(near):
            if len(d) > nmax and d[nmax] - d[nmax - 1] < 1e-7 * d[nmax]:
                continue
            v = v[:nmax]
            a, b = np.triu_indices(nmax, 1)
            want[i] = np.sort(((v[a] + v[b]) ** 2).sum(1))[:nmax // 2].sum()
        got = np.array([a.centrosymmetry for a in s.atoms])
        compare(ctx, got, want, "wrong-centrosymmetry", "centrosymmetry(%d)" % nmax, 1e-7, 1e-9 * sp * sp)
        if op["vals"]:
            ctx.check(list(res) == got.tolist(), "wrong-result", "the values returned are not those of the atoms")
        else:
            ctx.check(res is None, "wrong-result", "values were returned")
    done(ctx, w, op, nmax)


def rdf(ctx, w, op):
    s, n = w.s, w.cfg.n
    if s.ntotal > 700 or s.ntotal < 2:
        return
    with ctx.judging():
        m = int(np.prod(w.images()))
        N = m * n
        rmax = .49 * w.cellwidth()
    rho = (N * (N - 1) // 2) / (w.cfg.volume() * m)
    if op["full"]:
        g, r = measure(ctx, w, op, "calculate_rdf", lambda: s.calculate_rdf(histobins=op["bins"]))
        with ctx.judging():
            g, r = np.array(g), np.array(r)
            ctx.check(len(g) == len(r) == op["bins"], "wrong-rdf", "number of bins")
            if op["bins"] > 1:
                dr = r[1] - r[0]
                total = (g * rho * 4 / 3. * np.pi * ((r + dr) ** 3 - r ** 3)).sum()
                ctx.check(abs(total - N * (N - 1) / 2) < 1e-6 * N * N, "wrong-rdf", lambda: "%.6g pairs are counted, there are %d" % (total, N * (N - 1) // 2))
        done(ctx, w, op, "full")
        return
    lo, hi = op["lo"] * rmax, rmax
    g, r = measure(ctx, w, op, "calculate_rdf", lambda: s.calculate_rdf(histobins=op["bins"], histomin=lo, histomax=hi))
    with ctx.judging():
        edges = np.linspace(lo, hi, op["bins"] + 1)
        g, r = np.array(g), np.array(r)
        ctx.check(len(g) == len(r) == op["bins"] and np.allclose(r, edges[:-1], atol=1e-9 * hi), "wrong-rdf", lambda: "bins %s" % r.tolist()[:5])
        im = G.Images(w.cfg, hi * 1.001)
        d = np.concatenate([im.around(i, hi * 1.0005)[2] for i in range(n)])
        eps = 1e-8 * hi
        cnt = g * rho * 4 / 3. * np.pi * (edges[1:] ** 3 - edges[:-1] ** 3)
        for b in range(op["bins"]):
            inner = .5 * m * ((d > edges[b] + eps) & (d < edges[b + 1] - eps)).sum()
            outer = .5 * m * ((d > edges[b] - eps) & (d < edges[b + 1] + eps)).sum()
            ctx.check(inner - 1e-3 <= cnt[b] <= outer + 1e-3, "wrong-rdf",
                      lambda: "%.6g pairs between %.6g and %.6g instead of %d (%d atoms, %d cells stored)" % (cnt[b], edges[b], edges[b + 1], inner, n, m))
        ctx.nontrivial = True
        ctx.probe("values_compared", op["bins"])
    done(ctx, w, op, m)


def concentration(ctx, w, op):
    got = ctx.must("get_concentration", w.s.get_concentration)
    want = {str(t): w.cfg.types.count(t) for t in set(w.cfg.types)}
    ctx.check({k: int(v) for k, v in got.items()} == want, "wrong-concentration", lambda: "%s instead of %s" % (got, want))
    done(ctx, w, op)


def shrink(plan):
    yield from W.shrink_world(plan)
    for i, op in enumerate(plan["ops"]):
        if op.get("fault"):
            yield dict(plan, ops=plan["ops"][:i] + [dict(op, fault=None)] + plan["ops"][i + 1:])
