"""Structures found by common neighbor analysis are those of the definition"""
import warnings
import numpy as np
from sim import sysgen as G, world as W

ID = "C17"
QUICK, THOROUGH, TIMEOUT = 360, 30000, 180
RULE = ("a run = a history of crystals (perfect, noisy, stacked in any order, with vacancies, in skewed cells), clusters and disordered configurations, changes and other "
        "analyses (some failing), then common neighbor analyses, adaptive ones and identifications of diamond with failures inside of them; the structure of each atom "
        "is compared with the definition on explicit periodic images; non-trivial = at least one structure was compared")
SIG12 = {(4, 2, 1, 1): 1, (4, 2, 2, 0): 2, (5, 5, 2, 2): 4}
SIG14 = {(4, 4, 2, 2): 1, (6, 6, 2, 2): 2}
EPS = 1e-7


def gen_spec(rng):
    k = rng.choice(["lattice", "lattice", "lattice", "stack", "stack", "ico", "world"])
    if k == "world":
        return W.gen_world(rng, nspecs=(1,), big=0, sizes=("tiny", "small", "mid"))[0]
    sp = dict(seed=rng.getrandbits(30), kind=k, box=rng.choice(["orth", "orth", "rot"]), ntypes=rng.choice([1, 1, 2]), scale=rng.choice([1.0, 3.2, .4]),
              noise=rng.choice([0.0, 0.0, .01, .03, .06]), ids=rng.choice(["seq", "gap", "shuffled"]))
    if k == "lattice":
        sp["lat"] = rng.choice(sorted(G.BASIS) + sorted(G.MORE) + ["diamond", "hexdia"])
        m = rng.choice([2, 3, 4])
        sp["reps"] = [m + rng.choice([0, 0, 1]) for _ in range(3)]
    elif k == "stack":
        n = rng.randrange(3, 10)
        seq = "A"
        while len(seq) < n or seq[-1] == seq[0]:
            seq += rng.choice([c for c in "ABC" if c != seq[-1]])
        sp.update(seq=seq, pairs=rng.random() < .6, reps=[rng.choice([3, 4, 5]), rng.choice([2, 3])])
    else:
        sp["extra"] = rng.random() < .8
        sp["noise"] = min(sp["noise"], .03)
    if rng.random() < .25 and k != "ico":
        sp["vac"] = rng.choice([1, 2, 5])
    if rng.random() < .3 and k != "ico":
        sp["uni"] = [rng.choice([-1, 0, 1]) for _ in range(3)]
    if rng.random() < .08:
        sp["left"] = True
    return sp


def gen(rng, tier):
    specs = [gen_spec(rng) for _ in range(rng.choice([1, 2, 3]))]
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        ops += W.gen_history(rng, len(specs))
        if ops and rng.random() < .5:
            ops.append(dict(k="config", seed=rng.getrandbits(24), spec=rng.randrange(len(specs)), fresh=False))
        for _ in range(rng.choice([1, 2, 3])):
            ops.append(dict(k=rng.choice(["acna", "acna", "cna", "diamond", "diamond", "diamondneigh", "dialist"]), seed=rng.getrandbits(20), x=rng.choice([1, 1, 1, .9, 1.1, 1.6]),
                            fault=W.gen_fault(rng, .25, kinds=("alloc", "alloc", "interrupt"))))
    return dict(specs=specs, ops=ops, trace=False)


def run(plan, ctx):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    w = W.World(ctx, plan["specs"])
    for op in plan["ops"]:
        if op["k"] in ("acna", "cna", "diamond", "diamondneigh"):
            if w.cfg.n <= 520:
                identify(ctx, w, op)
        elif op["k"] == "dialist":
            if w.cfg.n <= 520:
                listed(ctx, w, op)
        else:
            w.history(op)
    w.check_config("at the end")


class Near:
    """nearest images of each atom, as far as the search reaches"""

    def __init__(self, w, k, reach):
        cfg = w.cfg
        self.n = cfg.n
        self.width = w.cellwidth()
        self.lim = lim = min(reach * w.spacing(), .5 * self.width)
        im = G.Images(cfg, lim * 1.0001)
        self.head, self.vec, self.dist, self.sure = [], [], [], []
        for i in range(cfg.n):
            h, v, d = im.around(i, lim * 1.00001)
            sure = not len(d) or np.abs(d[:k] - lim).min() > EPS * lim
            m = d < lim
            h, v, d = h[m], v[m], d[m]
            if len(d) < k and reach * w.spacing() > self.lim:
                sure = False        # there are more, beyond half of the cell
            if len(d) > k and d[k] - d[k - 1] < EPS * d[k]:
                sure = False        # more than one choice
            self.head.append(h[:k])
            self.vec.append(v[:k])
            self.dist.append(d[:k])
            self.sure.append(sure)


def signatures(vec, cut):
    """(common neighbors, bonds between them, most and fewest bonds of one of them) of each neighbor; None if a distance is at the cutoff"""
    d = np.linalg.norm(vec[:, None] - vec[None], axis=2)
    off = d[np.triu_indices(len(vec), 1)]
    if len(off) and np.abs(off - cut).min() < EPS * cut:
        return None
    b = (d <= cut) & ~np.eye(len(vec), dtype=bool)
    out = []
    for k in range(len(vec)):
        c = np.flatnonzero(b[k])
        deg = b[np.ix_(c, c)].sum(1)
        out.append((len(c), int(deg.sum()) // 2, int(deg.max(initial=0)), int(deg.min(initial=8))))
    return out


def twelve(sig):
    c = [0] * 5
    for x in sig:
        c[SIG12.get(x, 0)] += 1
    return 1 if c[1] == 12 else 2 if c[1] == 6 and c[2] == 6 else 4 if c[4] == 12 else 0


def cna_reference(w, lattice):
    """structure of each atom, -1 where it depends on rounding"""
    n12, n14 = Near(w, 12, 3.0), Near(w, 14, 3.0)
    out = np.zeros(w.cfg.n, int)
    for i in range(w.cfg.n):
        for near, k in ((n12, 12), (n14, 14)):
            if not near.sure[i]:
                out[i] = -1
                break
            v, d = near.vec[i], near.dist[i]
            if len(d) < k and (lattice is None or len(d) < 12):
                continue            # fewer neighbors than any structure has
            if k == 14 and len(d) < 14:
                continue
            if lattice is not None:
                cut = (.854 if k == 12 else 1.207) * lattice
            elif k == 12:
                cut = 1.207 * d.mean()
            else:
                cut = 1.207 * (1.1547 * d[:8].sum() + d[8:].sum()) / 14
                if d[8] - d[7] < EPS * d[8] and abs(d[8] - d[7]) > 0:
                    pass            # either order has the same sum up to rounding
            sig = signatures(v, cut)
            if sig is None or 2 * d[-1] + cut >= near.width:
                out[i] = -1
                break
            if k == 12:
                out[i] = twelve(sig)
                if out[i]:
                    break
            else:
                c = [SIG14.get(x, 0) for x in sig]
                if c.count(1) == 6 and c.count(2) == 8:
                    out[i] = 3
    return out


def diamond_reference(w):
    near = Near(w, 4, 3.0)
    n = w.cfg.n
    few = [i for i in range(n) if len(near.dist[i]) < 4]
    if few:
        # they are refused, unless there may be more beyond half of the cell
        return None if any(near.sure[i] for i in few) else np.full(n, -1)
    st = np.zeros(n, int)
    second = []
    for i in range(n):
        vec, heads = [], []
        sure = near.sure[i]
        for j in range(4):
            tj = near.head[i][j]
            sure = sure and near.sure[tj]
            for k in range(4):
                v = near.vec[i][j] + near.vec[tj][k]
                if np.linalg.norm(v) < 1e-6 * w.spacing():
                    continue
                vec.append(v)
                heads.append(near.head[tj][k])
        vec = np.array(vec)
        second.append(heads)
        if not sure:
            st[i] = -1
            continue
        d = np.linalg.norm(vec, axis=1)
        if len(d) > 12:
            # which of them are the first twelve depends on the order of equal distances
            if any(np.diff(near.dist[x]).min() < EPS for x in [i] + list(near.head[i])):
                st[i] = -1
                continue
        cut = 1.207 * d[:12].mean()
        if 2 * d.max() + cut >= near.width:
            st[i] = -1
            continue
        if len(d) > 12 and len(set(np.round(vec / w.spacing(), 5).ravel().tolist())) and \
                np.linalg.norm(vec[:, None] - vec[None], axis=2)[np.triu_indices(len(d), 1)].min() < 1e-6 * w.spacing():
            st[i] = -1              # an atom is reached on two ways
            continue
        sig = signatures(vec, cut)
        st[i] = -1 if sig is None else {1: 5, 2: 8, 4: 4}.get(twelve(sig), 0)
    first = st.copy()

    def spread(st, lists, names, skip):
        new = st.copy()
        for i in range(n):
            if st[i] == -1 or st[i] in skip:
                continue
            found = [st[j] for j in lists(i)]
            if -1 in found:
                new[i] = -1
                continue
            if 5 in found and 8 in found:
                # the first one in the list decides
                new[i] = -2
            elif 5 in found:
                new[i] = names[0]
            elif 8 in found:
                new[i] = names[1]
        return new
    st = spread(first, lambda i: near.head[i], (6, 9), (5, 8))
    for i in range(n):
        if st[i] == -2:
            hs = [first[j] for j in near.head[i]]
            st[i] = -3              # 6 or 9
    core = np.where(first == -1, -1, np.where(np.isin(first, (5, 8)), first, 0))
    two = spread(core, lambda i: second[i], (7, 10), (5, 8))
    for i in range(n):
        if st[i] in (0, 4) and two[i] != 0:
            st[i] = two[i] if two[i] != -2 else -4      # 7 or 10
    return st


ALLOWED = {-3: (6, 9), -4: (7, 10)}
NAMES = ["others", "fcc", "hcp", "bcc", "ico", "cubic diamond", "cubic diamond 1NN", "cubic diamond 2NN", "hex diamond", "hex diamond 1NN", "hex diamond 2NN"]


def identify(ctx, w, op):
    s, k = w.s, op["k"]
    r = w.rng(op)
    lattice = None
    if k == "cna":
        # the lattice constant of one of the structures at this density
        lattice = float(w.spacing() * [4 ** (1 / 3.), 2 ** (1 / 3.), 4 ** (1 / 3.)][r.randint(3)] * op["x"])
    with ctx.judging():
        if k in ("acna", "cna"):
            want = cna_reference(w, lattice)
        else:
            want = diamond_reference(w)

    def fn():
        if k == "acna":
            return s.calculate_cna()
        if k == "cna":
            return s.calculate_cna(lattice_constant=lattice)
        if k == "diamondneigh":
            s.find_neighbors(method="number", nmax=4, assign_neighbor=False)
            return s.identify_diamond(find_neighbors=False)
        return s.identify_diamond()
    flt = op.get("fault")
    done = False
    if flt:
        ok, res, fired = w.under_fault(flt, fn)
        done = ok
        if not ok and fired:
            ctx.probe("retried")
        if not ok and flt["op"] == "interrupt":
            ctx.must("assign configuration", w.assign)
    if not done:
        ok, res = ctx.call(fn)
    if want is None:
        if ok:
            ctx.fail("accepted", "diamond was identified although there are atoms with less than 4 neighbors")
        ctx.event(k, w.cfg.n, "refused")
        return
    if not ok:
        if k.startswith("dia") and (want == -1).any():
            ctx.event(k, w.cfg.n, "refused")
            return
        ctx.fail("unexpected-error", "%s raised %s" % (k, res))
    with ctx.judging():
        got = np.array([a.structure for a in s.atoms])
        judged = 0
        for i in range(w.cfg.n):
            if want[i] in (-1, -2):
                continue
            judged += 1
            if got[i] not in ALLOWED.get(want[i], (want[i],)):
                ctx.fail("wrong-structure", "%s: atom %d of %d has structure %d instead of %d" % (k, i, w.cfg.n, got[i], want[i]))
        names = NAMES if k.startswith("dia") else NAMES[:5]
        count = {x: int((got == j).sum()) for j, x in enumerate(names)}
        if dict(res) != count:
            ctx.fail("wrong-counts", "%s: %s instead of %s" % (k, dict(res), count))
        if judged:
            ctx.nontrivial = True
            ctx.probe("structures_compared", judged)
            for x in set(want.tolist()):
                ctx.probe("structure_%d" % x)
    ctx.state(k, w.cfg.n < 200, w.spec["box"], tuple(sorted(set(got.tolist()))), flt and flt["op"])
    ctx.event(k, w.cfg.n, tuple(sorted(set(got.tolist()))))


def listed(ctx, w, op):
    """find_diamond_neighbors lists the neighbors of the four nearest neighbors"""
    s = w.s
    flt = op.get("fault")
    ok = False
    if flt:
        ok, v, fired = w.under_fault(flt, s.find_diamond_neighbors)
        if not ok and flt["op"] == "interrupt":
            ctx.must("assign configuration", w.assign)
    if not ok:
        ok, v = ctx.call(s.find_diamond_neighbors)
    with ctx.judging():
        near = Near(w, 4, 3.0)
        few = [i for i in range(w.cfg.n) if len(near.dist[i]) < 4]
        if not ok:
            if few:
                ctx.event("dialist", w.cfg.n, "refused")
                return
            ctx.fail("unexpected-error", "find_diamond_neighbors raised %s" % (v,))
        if any(near.sure[i] for i in few):
            ctx.fail("accepted", "neighbors in diamond were found although there are atoms with less than 4 neighbors")
        lists = W.Lists(w)
        judged = 0
        for i in range(w.cfg.n):
            if not near.sure[i] or not all(near.sure[j] for j in near.head[i]):
                continue
            vec, heads = [], []
            for j in range(4):
                for k in range(4):
                    v = near.vec[i][j] + near.vec[near.head[i][j]][k]
                    if np.linalg.norm(v) > 1e-6 * w.spacing():
                        vec.append(v)
                        heads.append(near.head[near.head[i][j]][k])
            vec = np.array(vec).reshape(-1, 3)
            d = np.linalg.norm(vec, axis=1)
            if len(vec) and 2 * d.max() > near.width * (1 - 1e-6):
                continue
            if len(vec) > 1 and np.linalg.norm(vec[:, None] - vec[None], axis=2)[np.triu_indices(len(vec), 1)].min() < 1e-6 * w.spacing():
                continue            # an atom is reached on two ways
            judged += 1
            bad = lists.consistent(i)
            if bad:
                ctx.fail("inconsistent", "find_diamond_neighbors: atom %d of %d: %s" % (i, w.cfg.n, bad))
            nb, gv, gd, _ = lists.of(i)
            bad = W.match(lists.head(nb), gv, heads, vec, 1e-6 * w.spacing())
            if bad:
                ctx.fail("wrong-neighbors", "find_diamond_neighbors: atom %d of %d: %s" % (i, w.cfg.n, bad))
        if judged:
            ctx.nontrivial = True
            ctx.probe("diamond_lists_compared", judged)
    ctx.state("dialist", w.cfg.n < 200, w.spec["box"], flt and flt["op"])
    ctx.event("dialist", w.cfg.n, judged)


def shrink(plan):
    yield from W.shrink_world(plan)
    for i, op in enumerate(plan["ops"]):
        if op.get("fault"):
            yield dict(plan, ops=plan["ops"][:i] + [dict(op, fault=None)] + plan["ops"][i + 1:])
