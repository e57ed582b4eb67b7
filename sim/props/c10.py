"""Neighbors within a cutoff are exact after any history"""
import warnings
import numpy as np
from sim import sysgen as G, world as W

ID = "C10"
QUICK, THOROUGH, TIMEOUT = 520, 30000, 180
RULE = ("a run = a history of configurations assigned, atoms moved/added/retyped, boxes changed, other analyses (some failing by allocation "
        "failure, interrupt or an exception in a callback) and neighbor searches with a fixed cutoff (with and without filter), whose lists are "
        "compared with a KD-tree over explicit periodic images; non-trivial = at least one list of a changed system was compared")


def gen(rng, tier):
    specs = W.gen_world(rng, big=.12)
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        ops += W.gen_history(rng, len(specs))
        ops.append(dict(k="verify", x=rng.choice([.3, .9, 1.2, 1.2, 1.6, 2.2, 3.0]), filter=rng.choice([None, None, "type", "type_r"]),
                        explicit=rng.random() < .5, seed=rng.getrandbits(20)))
    return dict(specs=specs, ops=ops, trace=False)


def run(plan, ctx):
    warnings.simplefilter("ignore")
    w = W.World(ctx, plan["specs"])
    for op in plan["ops"]:
        if op["k"] == "verify":
            verify(ctx, w, op)
        else:
            w.history(op)


def verify(ctx, w, op):
    s, cfg = w.s, w.cfg
    want = w.rcut(op["x"])
    img = G.Images(cfg, want * 1.3)
    rc = w.ok_cutoff(img, want)
    if rc is None or rc > .499 * w.cellwidth():
        ctx.event("skip")
        return
    ref = {}
    for i in range(cfg.n):
        ref[i] = img.around(i, rc)
    kw = dict(filter=op["filter"])
    ok, v = ctx.call(s.find_neighbors, method="cutoff", cutoff=rc, **kw)
    if not ok:
        # more neighbors than can be stored are refused
        if isinstance(v, RuntimeError) and max(len(r[0]) for r in ref.values()) > 300:
            ctx.probe("refused_too_many")
            return
        ctx.fail("unexpected-error", "find_neighbors raised %s: %s" % (type(v).__name__, str(v)[:200]))
        return
    with ctx.judging():
        L = W.Lists(w, 500)
        t = np.array(cfg.types)
        tol = 1e-6 * w.spacing() + 1e-9 * np.abs(cfg.pos).max()
        total = 0
        for i in L.pick:
            nb, vec, d, wt = L.of(i)
            idx, rv, rd = ref[i]
            if op["filter"]:
                keep = (t[idx] == t[i]) if op["filter"] == "type" else (t[idx] != t[i])
                idx, rv = idx[keep], rv[keep]
            bad = L.consistent(i) or W.match(L.head(nb), vec, idx, rv, tol)
            ctx.check(bad is None, "wrong-neighbors", lambda: "atom %d of %d, cutoff %.6g, filter %s: %s" % (i, cfg.n, rc, op["filter"], bad))
            ctx.check(bool(np.all(wt == 1.0)), "wrong-weights", lambda: "atom %d: %s" % (i, wt[:5]))
            ctx.check(L.atoms[i].cutoff == rc or len(nb) == 0, "wrong-cutoff", lambda: "atom %d: %r instead of %r" % (i, L.atoms[i].cutoff, rc))
            total += len(nb)
        # distances between pairs, with and without a vector
        r = np.random.RandomState(op["seed"])
        wmin = G.widths(cfg.box).min()
        for _ in range(4):
            i, j = int(r.randint(cfg.n)), int(r.randint(cfg.n))
            dref = G.min_image(cfg.box, cfg.pos[i] - cfg.pos[j])[1][0]
            if i == j or dref > .499 * wmin:
                continue
            a, b = s.get_atom(i), s.get_atom(j)
            d1 = s.get_distance(a, b)
            d2, vec = s.get_distance(a, b, vector=True)
            ctx.check(abs(d1 - dref) < tol and abs(d2 - dref) < tol and abs(np.linalg.norm(vec) - dref) < tol, "wrong-distance",
                      lambda: "atoms %d and %d: %r, %r, %s instead of %r" % (i, j, d1, d2, list(vec), dref))
        # positions mapped back are periodic images in the cell that is stored
        big = cfg.box * np.array(w.images())[:, None]
        inv = np.linalg.inv(cfg.box)
        for _ in range(3):
            f = r.uniform(-.4, 1.4, 3)
            p = f @ big
            if not np.allclose(cfg.box, np.diag(np.diag(cfg.box))):
                p = r.uniform(-1.2, 1.2, 3) @ big
            q = np.array(s.remap_atom([float(x) for x in p]))
            k = (q - p) @ inv
            ctx.check(np.abs(k - np.round(k)).max() < 1e-6, "wrong-image", lambda: "%s is mapped to %s, which is no image of it" % (p.tolist(), q.tolist()))
            g = q @ np.linalg.inv(big)
            ctx.check(g.max() - g.min() < 1 + 1e-6 and np.abs(g).max() < 1 + 1e-6, "wrong-image", lambda: "%s is mapped to %s, which is not in the cell" % (p.tolist(), q.tolist()))
    w.check_config("after find_neighbors")
    ctx.nontrivial = ctx.nontrivial or total > 0
    ctx.probe("neighbors_compared", total)
    ctx.state("verify", w.spec["box"], w.spec["kind"], cfg.n < 100, cfg.n < 200, cfg.n > 2300, op["filter"], op["x"], w.touched, w.s_failed > 0)
    ctx.event("verify", cfg.n, total)


def shrink(plan):
    yield from W.shrink_world(plan)
    for i, op in enumerate(plan["ops"]):
        if op.get("filter"):
            yield dict(plan, ops=plan["ops"][:i] + [dict(op, filter=None)] + plan["ops"][i + 1:])
