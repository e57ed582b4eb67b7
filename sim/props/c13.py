"""Steinhardt parameters, their averages and disorder are those of the neighbors that are listed"""
import warnings
import numpy as np
from sim import sysgen as G, world as W, rt

ID = "C13"
QUICK, THOROUGH, TIMEOUT = 550, 30000, 180
RULE = ("a run = a history of configurations, changes and other analyses (some failing), then neighbor searches of every kind and sequences of "
        "Steinhardt and disorder calculations with conditions set, kept and cleared, with failures in the middle and retries; every value is "
        "compared with spherical harmonics of the listed neighbors; non-trivial = at least one value was compared")
METHODS = ["cut", "cut", "cutfilter", "adaptive", "number", "voronoi", "voronoi", "sann", "vorofilter"]


def gen(rng, tier):
    specs = W.gen_world(rng, big=.0, sizes=rng.choice([("tiny",), ("small",), ("small", "mid"), ("tiny", "small", "mid")]))
    for sp in specs:
        if sp["kind"] == "random":
            sp["dmin"] = max(sp["dmin"], .5)
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        ops += W.gen_history(rng, len(specs))
        ops.append(dict(k="neigh", m=rng.choice(METHODS), seed=rng.getrandbits(20)))
        for _ in range(rng.choice([1, 2, 3, 5])):
            k = rng.choice(["q", "q", "q", "q", "disorder", "cluster", "solids", "wrong"])
            op = dict(k=k, seed=rng.getrandbits(20), fault=W.gen_fault(rng, .25, kinds=("alloc", "alloc", "interrupt", "callback")))
            if k == "q":
                op.update(q=rng.choice([6, 4, [6], [2, 3], rng.sample(range(2, 13), 3), rng.randrange(2, 13)]), averaged=rng.random() < .6,
                          only=rng.random() < .15, cond=rng.choice([None, None, None, "fn", "mask", "custom"]), clear=rng.random() < .12)
            elif k in ("disorder", "solids"):
                op.update(q=rng.choice([6, 4, 6, rng.randrange(2, 13)]), averaged=rng.random() < .6)
            ops.append(op)
    return dict(specs=specs, ops=ops, trace=False)


class Model:
    """neighbor lists, conditions and qlm as they have to be"""

    def __init__(self, w):
        self.w = w
        L = W.Lists(w)
        self.n = w.cfg.n
        self.vec, self.head, self.wt = [], [], []
        for i in range(self.n):
            nb, v, d, wt = L.of(i)
            bad = L.consistent(i)
            w.ctx.check(bad is None, "inconsistent-neighbors", lambda: "atom %d: %s" % (i, bad))
            self.vec.append(v)
            self.head.append(L.head(nb) if len(nb) else np.array([], int))
            self.wt.append(wt)
        self.cond = np.zeros(self.n, int)
        self.qlm = {}
        self.own = np.repeat(np.arange(self.n), [len(h) for h in self.head])
        self.allv = np.concatenate(self.vec) if len(self.own) else np.zeros((0, 3))
        self.allh = np.concatenate(self.head) if len(self.own) else np.zeros(0, int)
        self.allw = np.concatenate(self.wt) if len(self.own) else np.zeros(0)
        r = np.linalg.norm(self.allv, axis=1)
        self.theta, self.phi = np.arccos(np.clip(self.allv[:, 2] / r, -1, 1)), np.arctan2(self.allv[:, 1], self.allv[:, 0])

    def match(self):
        return self.cond[self.own] == self.cond[self.allh]

    def q(self, l):
        from scipy.special import sph_harm_y
        ok = self.match()
        own, w = self.own[ok], self.allw[ok]
        out = np.zeros((self.n, 2 * l + 1), complex)
        for m in range(-l, l + 1):
            y = sph_harm_y(l, m, self.theta[ok], self.phi[ok]) * w
            out[:, m + l] = np.bincount(own, y.real, self.n) + 1j * np.bincount(own, y.imag, self.n)
        norm = np.bincount(own, w, self.n)
        with np.errstate(all="ignore"):
            self.qlm[l] = out / norm[:, None]
        return self.size(self.qlm[l], l)

    def size(self, x, l):
        return np.sqrt(4 * np.pi / (2 * l + 1) * np.sum(np.abs(x) ** 2, axis=1))

    def aq(self, l):
        ok = self.match()
        out = self.qlm[l].copy()
        np.add.at(out, self.own[ok], self.qlm[l][self.allh[ok]])
        n = np.bincount(self.own[ok], minlength=self.n) + 1
        return self.size(out / n[:, None], l)

    def sij(self, l):
        """per pair in the list"""
        x = self.qlm[l]
        with np.errstate(all="ignore"):
            u = np.sqrt(np.sum(np.abs(x) ** 2, axis=1))
            # a vector that vanishes by symmetry has no direction
            u = x / np.where(u > 1e-4, u, np.nan)[:, None]
        return np.real(np.sum(u[self.own] * np.conj(u[self.allh]), axis=1))

    def disorder(self, l):
        s = self.sij(l)
        n = np.bincount(self.own, minlength=self.n)
        with np.errstate(all="ignore"):
            d = np.bincount(self.own, 2 - 2 * s, self.n) / n
        return d

    def mean(self, d):
        n = np.bincount(self.own, minlength=self.n)
        return (d + np.bincount(self.own, d[self.allh], self.n)) / (n + 1)


def find(w, m, seed):
    s = w.s
    rc = w.rcut([1.4, 1.2, 1.05][seed % 3])
    if m == "cut":
        s.find_neighbors(method="cutoff", cutoff=rc)
    elif m == "cutfilter":
        s.find_neighbors(method="cutoff", cutoff=rc, filter=["type", "type_r"][seed % 2])
    elif m == "adaptive":
        s.find_neighbors(method="cutoff", cutoff="adaptive", nlimit=4 + seed % 5)
    elif m == "number":
        s.find_neighbors(method="number", nmax=2 + seed % 12)
    elif m == "sann":
        s.find_neighbors(method="cutoff", cutoff="sann")
    elif m == "voronoi":
        s.find_neighbors(method="voronoi", voroexp=1 + seed % 3)
    elif m == "vorofilter":
        s.find_neighbors(method="voronoi", filter=["type", "type_r"][seed % 2])
    else:
        raise rt.HarnessError(m)


def run(plan, ctx):
    warnings.simplefilter("ignore")
    w = W.World(ctx, plan["specs"])
    model = None
    done = {}
    for op in plan["ops"]:
        k = op["k"]
        if k == "neigh":
            if w.cfg.n > 500:
                model = None
                continue
            ok, v = ctx.call(find, w, op["m"], op["seed"])
            with ctx.judging():
                model = Model(w) if ok else None
            done = {}
            ctx.event(op["m"], w.cfg.n, ok)
        elif k in ("q", "disorder", "cluster", "solids", "wrong"):
            if model is not None:
                step(ctx, w, model, op, done)
        else:
            w.history(op)
            model = None
    w.check_config("at the end")


def retry(ctx, w, op, what, fn):
    """with the fault, then without if it failed"""
    flt = op.get("fault")
    if flt:
        ok, v, fired = w.under_fault(flt, fn)
        if ok:
            return
        if not fired and flt["op"] != "callback":
            ctx.fail("unexpected-error", "%s raised %s" % (what, v))
        ctx.probe("retried")
    ctx.must(what, fn)


def step(ctx, w, M, op, done):
    s, k = w.s, op["k"]
    r = w.rng(op)
    if k == "q":
        qs = [op["q"]] if isinstance(op["q"], int) else op["q"]
        only = op["only"] and all(q in M.qlm for q in qs)
        kw = dict(averaged=op["averaged"], only_averaged=only)
        if op["cond"]:
            vals = (r.rand(M.n) < .6).astype(int)
            if op["cond"] == "fn":
                vals = np.array([1 if t == 1 else 0 for t in w.cfg.types])
                boom = [op["fault"]["at"] if op.get("fault") and op["fault"]["op"] == "callback" else -1]

                def cb(atom):
                    boom[0] -= 1
                    if boom[0] == -1:
                        ctx.fault_fired("callback-exception")
                        raise rt.Injected("callback")
                    return atom.type == 1
                kw["condition"] = cb
            else:
                def put():
                    for i in range(M.n):
                        a = s.get_atom(i)
                        if op["cond"] == "mask":
                            a.mask = int(vals[i])
                        else:
                            a.custom = dict(flag=int(vals[i]))
                        s.set_atom(a)
                ctx.must("set values", put)
                kw["condition"] = "mask" if op["cond"] == "mask" else "flag"
            M.cond = vals
        if op["clear"]:
            kw["clear_condition"] = True
            M.cond = np.zeros(M.n, int)
        what = "calculate_q(%s, %s)" % (op["q"], {a: b for a, b in kw.items() if a != "condition"})
        if op["cond"]:
            what += " with condition " + op["cond"]
        retry(ctx, w, op, what, lambda: s.calculate_q(op["q"], **kw))
        with ctx.judging():
            for q in qs:
                if not only:
                    done[q] = M.q(q)
                if op["averaged"] or only:
                    done[("a", q)] = M.aq(q)
        values(ctx, w, M, done, what, op)
    elif k == "disorder":
        what = "calculate_disorder(q=%d)" % op["q"]
        retry(ctx, w, op, what, lambda: s.calculate_disorder(q=op["q"], averaged=op["averaged"]))
        with ctx.judging():
            done[op["q"]] = M.q(op["q"])
            d = M.disorder(op["q"])
            got = np.array([a.disorder for a in s.atoms])
            close(ctx, got, d, "wrong-disorder", what)
            if op["averaged"]:
                close(ctx, np.array([a.avg_disorder for a in s.atoms]), M.mean(d), "wrong-avg-disorder", what)
        values(ctx, w, M, done, what, op)
    elif k == "solids":
        what = "find_solids(q=%d)" % op["q"]
        retry(ctx, w, op, what, lambda: s.find_solids(q=op["q"], threshold=.5, avgthreshold=.5, bonds=.5))
        with ctx.judging():
            done[op["q"]] = M.q(op["q"])
        values(ctx, w, M, done, what, op)
    elif k == "cluster":
        # conditions of clusters are not those of Steinhardt parameters
        retry(ctx, w, op, "cluster_atoms", lambda: s.cluster_atoms(lambda a: a.type == 1))
        values(ctx, w, M, done, "cluster_atoms", op)
    elif k == "wrong":
        bad = [lambda: s.calculate_q(13), lambda: s.calculate_q([6, 1]), lambda: s.calculate_q(6, condition="no such thing"),
               lambda: s.calculate_disorder(q=1), lambda: s.get_qvals(15), lambda: s.get_qvals([4, 20])][op["seed"] % 6]
        ok, v = ctx.call(bad)
        ctx.check(not ok, "accepted", "a wrong call was accepted")
        values(ctx, w, M, done, "a refused call", op)


def close(ctx, got, want, kind, what):
    use = np.isfinite(want)
    if not use.any():
        return
    err = np.abs(np.where(np.isfinite(got), got, 1e9) - want)[use]
    i = int(np.where(use)[0][err.argmax()])
    ctx.check(err.max() < 2e-6, kind, lambda: "%s: atom %d of %d: %r instead of %r" % (what, i, len(got), float(got[i]), float(want[i])))


def values(ctx, w, M, done, what, op):
    s = w.s
    with ctx.judging():
        for key, want in done.items():
            av = isinstance(key, tuple)
            q = key[1] if av else key
            got = np.array(s.get_qvals(q, averaged=av))
            ctx.check(len(got) == M.n, "wrong-number", lambda: "%s: %d values of q%d for %d atoms" % (what, len(got), q, M.n))
            close(ctx, got, want, "wrong-aq" if av else "wrong-q", "%s: %sq%d" % (what, "averaged " * av, q))
        got = [int(bool(a.condition)) for a in s.atoms]
        ctx.check(got == [int(bool(v)) for v in M.cond], "wrong-condition",
                  lambda: "%s: conditions of atoms %s are not those given" % (what, [i for i in range(M.n) if got[i] != int(bool(M.cond[i]))][:5]))
        if done:
            # the same through a list, and through atoms
            qs = sorted(k for k in done if isinstance(k, int))
            if qs:
                got = s.get_qvals(qs)
                for q, g in zip(qs, got):
                    close(ctx, np.array(g), done[q], "wrong-q", what + ": list of values")
                i = op["seed"] % M.n
                a = s.get_atom(i)
                for q in qs:
                    if np.isfinite(done[q][i]):
                        ctx.check(abs(a.get_q(q) - done[q][i]) < 2e-6, "wrong-q", lambda: "%s: q%d of atom %d" % (what, q, i))
            ctx.nontrivial = True
            ctx.probe("values_compared", M.n * len(done))
    ctx.state(op["k"], op.get("cond"), op.get("averaged"), op.get("only"), op.get("clear"), bool(M.cond.any()), w.cfg.n < 200, w.spec["box"], bool(op.get("fault")))
    ctx.event(op["k"], w.cfg.n, len(done))


def shrink(plan):
    yield from W.shrink_world(plan)
    for i, op in enumerate(plan["ops"]):
        for k in ("fault", "cond"):
            if op.get(k):
                yield dict(plan, ops=plan["ops"][:i] + [dict(op, **{k: None})] + plan["ops"][i + 1:])
