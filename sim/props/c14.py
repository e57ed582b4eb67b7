"""Clusters are the connected components of the atoms that fulfill the condition"""
import warnings
import numpy as np
from sim import sysgen as G, world as W, rt
from sim.props.c13 import Model, find, METHODS, retry

ID = "C14"
QUICK, THOROUGH, TIMEOUT = 600, 30000, 180
RULE = ("a run = a history of configurations, changes and other analyses (some failing), then neighbor searches of every kind and sequences of "
        "clusterings by functions, attributes and custom values, with cutoffs, with failures in the middle and retries; clusters are compared with "
        "connected components of the listed neighbors; non-trivial = a clustering with at least one cluster was compared")
CONDS = ["fn", "fn", "mask", "custom", "solid", "structure", "random", "random", "all", "none"]


def gen(rng, tier):
    specs = W.gen_world(rng, big=.01, sizes=rng.choice([("tiny",), ("small",), ("small", "mid"), ("tiny", "small", "mid")]))
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        ops += W.gen_history(rng, len(specs))
        ops.append(dict(k="neigh", m=rng.choice(METHODS), seed=rng.getrandbits(20)))
        for _ in range(rng.choice([1, 2, 3, 5])):
            k = rng.choice(["cluster"] * 6 + ["factor", "q", "wrong"])
            op = dict(k=k, seed=rng.getrandbits(20), fault=W.gen_fault(rng, .3, kinds=("alloc", "alloc", "interrupt", "callback")))
            if k == "cluster":
                op.update(cond=rng.choice(CONDS), share=rng.choice([.1, .3, .5, .7, .9]), cutoff=rng.choice([0, 0, 0, .8, 1.0, 1.15, 3.]), largest=rng.random() < .85)
            elif k == "factor":
                op["factor"] = rng.choice([.9, 1.0, 1.1, 1.3])
            ops.append(op)
    return dict(specs=specs, ops=ops, trace=False)


def run(plan, ctx):
    warnings.simplefilter("ignore")
    w = W.World(ctx, plan["specs"])
    model = None
    for op in plan["ops"]:
        k = op["k"]
        if k == "neigh":
            if w.cfg.n > 1000 and op["m"] not in ("cut", "cutfilter"):
                model = None
                continue
            ok, v = ctx.call(find, w, op["m"], op["seed"])
            with ctx.judging():
                model = Model(w) if ok else None
            ctx.event(op["m"], w.cfg.n, ok)
        elif k in ("cluster", "factor", "q", "wrong"):
            if model is not None:
                step(ctx, w, model, op)
        else:
            w.history(op)
            model = None
    w.check_config("at the end")


def step(ctx, w, M, op):
    s, k = w.s, op["k"]
    if k == "factor":
        retry(ctx, w, op, "set_atom_cutoff", lambda: s.set_atom_cutoff(factor=op["factor"]))
        with ctx.judging():
            n = np.bincount(M.own, minlength=M.n)
            d = np.bincount(M.own, np.linalg.norm(M.allv, axis=1), M.n)
            got = np.array([s.get_atom(i).cutoff for i in range(M.n)])
            with np.errstate(all="ignore"):
                want = op["factor"] * d / n
            bad = np.where((n > 0) & ~(np.abs(got - want) < 1e-6 * np.abs(want)))[0]
            ctx.check(len(bad) == 0, "wrong-cutoff", lambda: "cutoff of atom %d is %r instead of %r" % (bad[0], got[bad[0]], want[bad[0]]))
        return
    if k == "q":
        retry(ctx, w, op, "calculate_q", lambda: s.calculate_q(6, averaged=True, condition=lambda a: a.type == 2))
        return
    if k == "wrong":
        before = [s.get_atom(i).cluster for i in range(min(M.n, 300))]
        bad = [lambda: s.cluster_atoms("no such thing"), lambda: s.cluster_atoms(lambda a: 7), lambda: s.cluster_atoms(None)][op["seed"] % 3]
        ok, v = ctx.call(bad)
        ctx.check(not ok, "accepted", "a wrong condition was accepted")
        ctx.check(before == [s.get_atom(i).cluster for i in range(min(M.n, 300))], "changed", "a refused condition changed the clusters")
        return
    cond, vals = condition(ctx, w, M, op)
    cut = op["cutoff"] * w.spacing()
    what = "cluster_atoms by %s, cutoff %g" % (op["cond"], cut)
    out = []
    retry(ctx, w, op, what, lambda: out.append(s.cluster_atoms(cond, cutoff=cut, largest=op["largest"])))
    compare(ctx, w, M, vals, cut, what, out[-1] if op["largest"] else None)
    if not op["largest"]:
        ctx.check(out[-1] is None, "wrong-result", lambda: "%s: largest=False gives %r" % (what, out[-1]))
    ctx.state("cluster", op["cond"], op["cutoff"], w.cfg.n < 100, w.cfg.n < 200, w.spec["box"], w.touched, bool(op.get("fault")), op["share"])
    ctx.event("cluster", w.cfg.n, out[-1])


def condition(ctx, w, M, op):
    s, r, n = w.s, w.rng(op), M.n
    k = op["cond"]
    if k in ("fn", "random", "all", "none"):
        vals = dict(fn=lambda: np.array([t == 1 for t in w.cfg.types]), random=lambda: r.rand(n) < op["share"],
                    all=lambda: np.ones(n, bool), none=lambda: np.zeros(n, bool))[k]()
        boom = [op["fault"]["at"] if op.get("fault") and op["fault"]["op"] == "callback" else -1]
        by = {i: bool(v) for i, v in zip(w.cfg.ids, vals)}

        def cb(atom):
            boom[0] -= 1
            if boom[0] == -1:
                ctx.fault_fired("callback-exception")
                raise rt.Injected("callback")
            return by[atom.id]
        return cb, vals
    vals = r.rand(n) < op["share"]

    def put():
        for i in range(n):
            a = s.get_atom(i)
            if k == "custom":
                a.custom = dict(flag=int(vals[i]))
            elif k == "solid":
                a.solid = bool(vals[i])
            else:
                setattr(a, k, int(vals[i]))
            s.set_atom(a)
    ctx.must("set values", put)
    return ("flag" if k == "custom" else k), vals


def components(n, pairs):
    from scipy.sparse import coo_matrix
    from scipy.sparse.csgraph import connected_components
    g = coo_matrix((np.ones(len(pairs)), (pairs[:, 0], pairs[:, 1])), shape=(n, n))
    return connected_components(g, directed=False)[1]


def compare(ctx, w, M, vals, cut, what, size):
    s, n = w.s, M.n
    with ctx.judging():
        atoms = [s.get_atom(i) for i in range(n)]
        d = np.linalg.norm(M.allv, axis=1)
        reach = np.full(n, cut) if cut else np.array([a.cutoff for a in atoms])
        both = vals[M.own] & vals[M.allh]
        lim = reach[M.own]
        if np.any(both & (np.abs(d - lim) < 1e-7 * lim)):
            ctx.probe("ambiguous")
            return
        keep = both & (d < lim)
        lab = components(n, np.stack([M.own[keep], M.allh[keep]], axis=1))
        got = np.array([a.cluster for a in atoms])
        i = np.where((got == -1) & vals)[0]
        ctx.check(len(i) == 0, "left-out", lambda: "%s: atom %d fulfills the condition and is in no cluster" % (what, i[0]))
        i = np.where((got != -1) & ~vals)[0]
        ctx.check(len(i) == 0, "wrong-member", lambda: "%s: atom %d does not fulfill the condition and is in cluster %d" % (what, i[0], got[i[0]]))
        a, b = lab[vals], got[vals]
        pairs = set(zip(a.tolist(), b.tolist()))
        ctx.check(len({x for x, _ in pairs}) == len(pairs), "split-cluster", lambda: "%s: connected atoms are in different clusters" % what)
        ctx.check(len({y for _, y in pairs}) == len(pairs), "merged-cluster", lambda: "%s: atoms that are not connected are in the same cluster" % what)
        sizes = np.bincount(a) if len(a) else np.array([0])
        big = int(sizes.max())
        if size is not None:
            ctx.check(size == big, "wrong-size", lambda: "%s: the largest cluster has %r atoms, not %d" % (what, size, big))
        flag = np.array([bool(a.largest_cluster) for a in atoms])
        ctx.check(int(flag.sum()) == big and len(set(got[flag].tolist())) <= 1 and not np.any(flag & ~vals), "wrong-largest",
                  lambda: "%s: %d atoms in %d clusters are marked as the largest one of %d atoms" % (what, flag.sum(), len(set(got[flag].tolist())), big))
        ctx.check(s.find_largestcluster() == big, "wrong-size", lambda: "%s: find_largestcluster gives %d" % (what, s.find_largestcluster()))
        ctx.nontrivial = ctx.nontrivial or big > 0
        ctx.probe("clusters_compared", len(pairs))
        return big


def shrink(plan):
    yield from W.shrink_world(plan)
    for i, op in enumerate(plan["ops"]):
        for k, v in (("fault", None), ("cutoff", 0), ("cond", "random")):
            if op.get(k) and op[k] != v:
                yield dict(plan, ops=plan["ops"][:i] + [dict(op, **{k: v})] + plan["ops"][i + 1:])
