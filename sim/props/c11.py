"""Adaptive, SANN and fixed-number neighbors follow their definitions after any history"""
import warnings
import numpy as np
from sim import sysgen as G, world as W

ID = "C11"
QUICK, THOROUGH, TIMEOUT = 500, 30000, 180
RULE = ("a run = a history of configurations assigned, atoms moved/added/retyped, boxes changed, other analyses (some failing by allocation "
        "failure, interrupt or an exception in a callback) and neighbor searches with the adaptive, SANN and fixed-number methods, whose "
        "lists are compared with the definitions evaluated on explicit periodic images; non-trivial = at least one list was compared")


def gen(rng, tier):
    specs = W.gen_world(rng, big=.03)
    if rng.random() < .01:
        specs[0] = dict(seed=rng.getrandbits(30), kind="random", box="orth", size="big", ntypes=2, scale=1.0, noise=0.0, ids="seq", n=4050, dmin=.3)
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        ops += W.gen_history(rng, len(specs))
        m = rng.choice(["adaptive", "adaptive", "sann", "number"])
        op = dict(k="verify", m=m, seed=rng.getrandbits(20), threshold=rng.choice([2, 2, 2, 1, 3, 1.3]))
        if m == "adaptive":
            op.update(nlimit=rng.choice([6, 6, 3, 8, 12]), padding=rng.choice([1.2, 1.2, 1.0, 1.5]), filter=rng.choice([None, None, "type", "type_r"]),
                      word=rng.random() < .5)
        elif m == "number":
            op.update(nmax=rng.choice([12, 12, 4, 14, 8, 1, 20]))
        ops.append(op)
    return dict(specs=specs, ops=ops, trace=False)


def run(plan, ctx):
    warnings.simplefilter("ignore")
    w = W.World(ctx, plan["specs"])
    for op in plan["ops"]:
        if op["k"] == "verify":
            verify(ctx, w, op)
        else:
            w.history(op)


def sann(d):
    """(number of neighbors, ambiguous) by the definition of the method"""
    for m in range(3, len(d)):
        rm = d[:m].sum() / (m - 2)
        if abs(rm - d[m]) < 1e-7 * rm:
            return m, True
        if rm < d[m]:
            return m, False
    return None, False


def as_shipped(d):
    """what the known finding makes of it: positions in the sorted list"""
    m, out = 3, [0, 1, 2]
    s = d[:3].sum()
    cut = s
    while m < len(d) and cut >= d[m]:
        m += 1
        if m == len(d):
            return None
        out.append(m)
        s += d[m]
        cut = s / (m - 2)
    return out


def verify(ctx, w, op):
    s, cfg, m = w.s, w.cfg, op["m"]
    half = .499 * w.cellwidth()
    d0 = w.spacing()
    reach = min(half, max(2, op["threshold"]) * d0 * 1.6)
    img = G.Images(cfg, reach * 1.05)
    near = [img.around(i, reach) for i in range(cfg.n)]
    kw = dict(threshold=op["threshold"])
    if m == "adaptive":
        kw.update(method="cutoff", cutoff="adaptive" if op["word"] else 0, nlimit=op["nlimit"], padding=op["padding"], filter=op["filter"])
    elif m == "sann":
        kw.update(method="cutoff", cutoff="sann")
    else:
        kw.update(method="number", nmax=op["nmax"])
    ok, v = ctx.call(s.find_neighbors, **kw)
    what = "%s %s" % (m, {k: x for k, x in kw.items() if k not in ("method", "cutoff")})
    if not ok:
        guess = op["threshold"] * d0
        if not isinstance(v, RuntimeError):
            ctx.fail("unexpected-error", "%s raised %s: %s" % (what, type(v).__name__, str(v)[:200]))
            return
        if m == "number":
            counts = [int(np.sum(x[2] < guess * (1 - 1e-6))) for x in near]
            if guess < half and min(counts) >= op["nmax"]:
                ctx.fail("unexpected-error", "%s raised %s, there are %d atoms within reach of each" % (what, v, min(counts)))
        elif m == "adaptive":
            ctx.fail("unexpected-error", "%s raised %s" % (what, v))
        else:
            ms = [sann(x[2]) for x in near]
            if all(k is not None and not amb for k, amb in ms) and max(k for k, _ in ms) < 30 and half > 4 * d0:
                ctx.fail("unexpected-error", "%s raised %s" % (what, v))
        ctx.probe("refused")
        ctx.event("refused", m)
        return
    t = np.array(cfg.types)
    tol = 1e-6 * d0 + 1e-9 * np.abs(cfg.pos).max()
    total = 0
    with ctx.judging():
        L = W.Lists(w, 500)
        for i in L.pick:
            nb, vec, d, wt = L.of(i)
            bad = L.consistent(i)
            ctx.check(bad is None, "inconsistent-neighbors", lambda: "%s: atom %d: %s" % (what, i, bad))
            idx, rv, rd = near[i]
            if m == "adaptive":
                n = op["nlimit"]
                if len(rd) < n:
                    continue
                cut = op["padding"] * rd[:n].mean()
                if cut > reach * .999 or np.abs(rd - cut).min() < 1e-7 * cut:
                    continue
                keep = rd < cut
                if op["filter"] == "type":
                    keep &= t[idx] == t[i]
                elif op["filter"] == "type_r":
                    keep &= t[idx] != t[i]
                idx, rv = idx[keep], rv[keep]
                ctx.check(abs(L.atoms[i].cutoff - cut) < tol, "wrong-cutoff", lambda: "%s: atom %d: %r instead of %r" % (what, i, L.atoms[i].cutoff, cut))
                # atoms on the surface of the sphere decide nothing
            elif m == "number":
                n = op["nmax"]
                if len(rd) <= n:
                    continue
                ctx.check(len(nb) == n, "wrong-neighbors", lambda: "%s: atom %d has %d neighbors" % (what, i, len(nb)))
                ctx.check(np.abs(np.sort(d) - rd[:n]).max() < tol, "wrong-neighbors",
                          lambda: "%s: atom %d: distances %s instead of %s" % (what, i, np.sort(d)[:6].tolist(), rd[:6].tolist()))
                if rd[n] - rd[n - 1] < 2 * tol:
                    continue
                idx, rv = idx[:n], rv[:n]
            else:
                k, amb = sann(rd)
                if k is None or amb:
                    continue
                good = W.match(L.head(nb), vec, idx[:k], rv[:k], tol)
                if good is not None:
                    sh = as_shipped(rd)
                    if sh is None and k > 3:
                        # would reach beyond what can be told within half of the cell
                        continue
                    if k > 3:
                        if any(abs(rd[x] - rd[x + 1]) < 2 * tol for x in (2, 3, len(sh), len(sh) + 1) if x + 1 < len(rd)):
                            # ties: which of several equally distant atoms is left out cannot be told
                            if len(d) == len(sh) and np.abs(np.sort(d) - rd[sh]).max() < tol:
                                ctx.fail("sann-skips-fourth", "%s: atom %d: %s" % (what, i, good))
                                continue
                        elif W.match(L.head(nb), vec, idx[sh], rv[sh], tol) is None:
                            ctx.fail("sann-skips-fourth", "%s: atom %d: %s" % (what, i, good))
                            continue
                    ctx.check(False, "wrong-neighbors", lambda: "%s: atom %d of %d: %s (%d by definition)" % (what, i, cfg.n, good, k))
                total += len(nb)
                continue
            bad = W.match(L.head(nb), vec, idx, rv, tol)
            ctx.check(bad is None, "wrong-neighbors", lambda: "%s: atom %d of %d: %s" % (what, i, cfg.n, bad))
            total += len(nb)
    w.check_config("after find_neighbors")
    ctx.nontrivial = ctx.nontrivial or total > 0
    ctx.probe("neighbors_compared_" + m, total)
    ctx.state("verify", m, w.spec["box"], w.spec["kind"], cfg.n < 100, cfg.n < 200, cfg.n > 2300, op.get("filter"), op["threshold"], w.touched, w.s_failed > 0)
    ctx.event("verify", m, cfg.n, total)


def shrink(plan):
    yield from W.shrink_world(plan)
    for i, op in enumerate(plan["ops"]):
        if op.get("filter"):
            yield dict(plan, ops=plan["ops"][:i] + [dict(op, filter=None)] + plan["ops"][i + 1:])
