"""Solid atoms, their bonds and their largest cluster follow the definition"""
import warnings
import numpy as np
from sim import sysgen as G, world as W, rt
from sim.props.c13 import Model, find, METHODS, retry
from sim.props import c14

ID = "C15"
QUICK, THOROUGH, TIMEOUT = 600, 30000, 180
RULE = ("a run = a history of configurations, changes and other analyses (some failing), then neighbor searches of every kind and sequences of "
        "find_solids calls with different thresholds, numbers or fractions of bonds, orders and directions, with failures in the middle and "
        "retries; solids, bond values, clusters and surfaces are compared with the definition; non-trivial = at least one classification was compared")


def gen(rng, tier):
    specs = W.gen_world(rng, big=.0, sizes=rng.choice([("tiny",), ("small",), ("small", "mid"), ("tiny", "small", "mid")]))
    for sp in specs:
        if sp["kind"] == "random":
            sp["dmin"] = max(sp["dmin"], .5)
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        ops += W.gen_history(rng, len(specs))
        ops.append(dict(k="neigh", m=rng.choice(METHODS), seed=rng.getrandbits(20)))
        for _ in range(rng.choice([1, 2, 3, 5])):
            k = rng.choice(["solids"] * 6 + ["cond", "cluster", "disorder", "wrong"])
            op = dict(k=k, seed=rng.getrandbits(20), fault=W.gen_fault(rng, .3, kinds=("alloc", "alloc", "interrupt")))
            if k == "solids":
                op.update(q=rng.choice([6, 6, 4, rng.randrange(2, 13)]), bonds=rng.choice([1, 3, 6, 7, .5, .2, .8, 0, 0.0]), threshold=rng.choice([.5, .3, .7, .1, .9]),
                          avgthreshold=rng.choice([.6, .2, .4, .8, .0]), right=rng.random() < .75, cluster=rng.random() < .8, cutoff=rng.choice([0, 0, 0, 1.0, 1.15, 3.]))
            ops.append(op)
    return dict(specs=specs, ops=ops, trace=False, early=rng.random() < .1)


def run(plan, ctx):
    warnings.simplefilter("ignore")
    w = W.World(ctx, plan["specs"])
    model = None
    if plan.get("early"):
        ok, v = ctx.call(w.s.find_solids)
        ctx.check(not ok and isinstance(v, RuntimeError), "accepted", lambda: "find_solids without neighbors: %r" % (v,))
    for op in plan["ops"]:
        k = op["k"]
        if k == "neigh":
            if w.cfg.n > 500:
                model = None
                continue
            ok, v = ctx.call(find, w, op["m"], op["seed"])
            with ctx.judging():
                model = Model(w) if ok else None
            ctx.event(op["m"], w.cfg.n, ok)
        elif k in ("solids", "cond", "cluster", "disorder", "wrong"):
            if model is not None:
                step(ctx, w, model, op)
        else:
            w.history(op)
            model = None
    w.check_config("at the end")


def step(ctx, w, M, op):
    s, k = w.s, op["k"]
    if k == "cond":
        # conditions stay until neighbors are calculated again
        if op["seed"] % 3:
            vals = np.array([1 if t == 1 else 0 for t in w.cfg.types])
            retry(ctx, w, op, "calculate_q", lambda: s.calculate_q(4, condition=lambda a: a.type == 1))
        else:
            vals = np.zeros(M.n, int)
            retry(ctx, w, op, "calculate_q", lambda: s.calculate_q(4, clear_condition=True))
        M.cond = vals
        return
    if k == "cluster":
        retry(ctx, w, op, "cluster_atoms", lambda: s.cluster_atoms(lambda a: a.type == 1))
        return
    if k == "disorder":
        retry(ctx, w, op, "calculate_disorder", lambda: s.calculate_disorder(q=4 + op["seed"] % 4))
        return
    if k == "wrong":
        kw = [dict(q=13), dict(q=6.0), dict(threshold=2), dict(avgthreshold=-1), dict(bonds=1.5), dict(bonds="6"), dict(threshold="a")][op["seed"] % 7]
        before = [s.get_atom(i).solid for i in range(M.n)]
        ok, v = ctx.call(lambda: s.find_solids(**kw))
        ctx.check(not ok and isinstance(v, (TypeError, ValueError)), "accepted", lambda: "find_solids(%s): %r" % (kw, v))
        ctx.check(before == [s.get_atom(i).solid for i in range(M.n)], "changed", "a refused call changed the solids")
        return
    kw = {a: op[a] for a in ("q", "bonds", "threshold", "avgthreshold", "right", "cluster")}
    kw["cutoff"] = op["cutoff"] * w.spacing()
    what = "find_solids(%s)" % ", ".join("%s=%s" % (a, kw[a]) for a in sorted(kw))
    out = []
    retry(ctx, w, op, what, lambda: out.append(s.find_solids(**kw)))
    with ctx.judging():
        M.q(op["q"])
        sij = M.sij(op["q"])
        n = np.bincount(M.own, minlength=M.n)
        atoms = [s.get_atom(i) for i in range(M.n)]
        right = op["right"]
        hit = sij > op["threshold"] if right else sij < op["threshold"]
        unsure = ~np.isfinite(sij) | (np.abs(sij - op["threshold"]) < 1e-6)
        fr = np.bincount(M.own, hit & ~unsure, M.n)
        maybe = np.bincount(M.own, unsure, M.n)
        with np.errstate(all="ignore"):
            avg = np.bincount(M.own, sij, M.n) / n
            frac = isinstance(op["bonds"], float)
            lo = fr / n if frac else fr
            hi = (fr + maybe) / n if frac else fr + maybe
        # numbers, and fractions without rounding, are exact: the required number is not enough
        exact = not frac or (op["bonds"] * 8).is_integer()
        enough = lo > op["bonds"] + 1e-9
        notenough = hi < op["bonds"] + (1e-9 if exact else -1e-9)
        above = avg > op["avgthreshold"] if right else avg < op["avgthreshold"]
        clear = np.isfinite(avg) & (np.abs(avg - op["avgthreshold"]) > 1e-6)
        yes = enough & above & clear
        # atoms at a limit may be either
        no = notenough | (clear & ~above)
        got = np.array([bool(a.solid) for a in atoms])
        i = np.where(yes & ~got)[0]
        ctx.check(len(i) == 0, "missed-solid", lambda: "%s: atom %d (%d of %d bonds, average %.6f) is not solid" % (what, i[0], fr[i[0]], n[i[0]], avg[i[0]]))
        i2 = np.where(no & (n > 0) & got)[0]
        ctx.check(len(i2) == 0, "wrong-solid", lambda: "%s: atom %d (%d of %d bonds, average %.6f) is solid" % (what, i2[0], fr[i2[0]], n[i2[0]], avg[i2[0]]))
        i3 = np.where((n == 0) & got)[0]
        ctx.check(len(i3) == 0, "wrong-solid", lambda: "%s: atom %d has no neighbors and is solid" % (what, i3[0]))
        for i in np.random.RandomState(op["seed"]).choice(M.n, min(M.n, 25), replace=False):
            a = atoms[i]
            mine = sij[M.own == i]
            if np.all(np.isfinite(mine)) and len(mine):
                ctx.check(abs(a.avg_sij - avg[i]) < 1e-6, "wrong-average", lambda: "%s: atom %d: average %r instead of %r" % (what, i, a.avg_sij, avg[i]))
                g = np.array(a.sij)[:len(mine)]
                ctx.check(len(g) == len(mine) and np.abs(g - mine).max() < 1e-6, "wrong-sij", lambda: "%s: atom %d: %s instead of %s" % (what, i, g[:4], mine[:4]))
        bonds = np.array([a.bonds for a in atoms])
        i4 = np.where((n > 0) & ((bonds < fr) | (bonds > fr + maybe)))[0]
        ctx.check(len(i4) == 0, "wrong-bonds", lambda: "%s: atom %d has %d solid bonds instead of %d" % (what, i4[0], bonds[i4[0]], fr[i4[0]]))
        # the bonds again are the same
        if op["seed"] % 4 == 0:
            def state():
                at = [s.get_atom(i) for i in range(M.n)]
                return [(a.bonds, np.array(a.avg_sij).tolist(), bool(a.solid)) for a in at]
            one = state()
            ctx.must("calculate_solidneighbors", s.calculate_solidneighbors)
            ctx.check(str(one) == str(state()), "changed", lambda: "%s: bonds change when they are calculated again" % what)
        # the same number for any two atoms, on request
        x = M.qlm[op["q"]]
        size = np.sqrt(np.sum(np.abs(x) ** 2, axis=1))
        for i, j in np.random.RandomState(op["seed"] ^ 5).randint(M.n, size=(6, 2)):
            if size[i] > 1e-4 and size[j] > 1e-4:
                want = float(np.real(np.sum(x[i] * np.conj(x[j]))) / size[i] / size[j])
                g = s.get_number_from_bond(atoms[i], atoms[j])
                ctx.check(abs(g - want) < 1e-6, "wrong-sij", lambda: "%s: %r instead of %r between atoms %d and %d" % (what, g, want, i, j))
        used = int(np.sum(yes) + np.sum(no))
        if op["cluster"]:
            # clusters of those that are marked as solid
            big = c14.compare(ctx, w, M, got, kw["cutoff"], what, out[-1])
            for i in range(M.n):
                if got[i]:
                    inner = all(got[h] for h in M.head[i])
                    ctx.check(bool(atoms[i].surface) == (not inner), "wrong-surface",
                              lambda: "%s: atom %d with%s neighbors that are not solid has surface=%s" % (what, i, "out" * inner, atoms[i].surface))
        else:
            ctx.check(out[-1] is None, "wrong-result", lambda: "%s: gives %r" % (what, out[-1]))
        ctx.nontrivial = ctx.nontrivial or used > 0
        ctx.probe("atoms_classified", used)
        ctx.probe("solids", int(got.sum()))
    ctx.state("solids", op["q"], op["bonds"], op["right"], op["cluster"], op["cutoff"], w.cfg.n < 200, w.spec["box"], bool(got.any()), bool(got.all()), bool(M.cond.any()))
    ctx.event("solids", w.cfg.n, int(got.sum()), out[-1])


def shrink(plan):
    yield from W.shrink_world(plan)
    for i, op in enumerate(plan["ops"]):
        for k, v in (("fault", None), ("cutoff", 0), ("right", True), ("cluster", False)):
            if k in op and op[k] != v:
                yield dict(plan, ops=plan["ops"][:i] + [dict(op, **{k: v})] + plan["ops"][i + 1:])
