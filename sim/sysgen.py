"""Seeded configurations (box, positions, types) and reference geometry on them."""
import random
import numpy as np

BASIS = dict(
    sc=[[0, 0, 0]],
    bcc=[[0, 0, 0], [.5, .5, .5]],
    fcc=[[0, 0, 0], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]],
    diamond=[[0, 0, 0], [.5, .5, 0], [.5, 0, .5], [0, .5, .5], [.25, .25, .25], [.75, .75, .25], [.75, .25, .75], [.25, .75, .75]],
    hcp=[[0, 0, 0], [.5, .5, 0], [.5, 5 / 6., .5], [0, 1 / 3., .5]],
)
CELL = dict(hcp=(1.0, 3 ** .5, 1.633), hexdia=(1.0, 3 ** .5, 1.633))

# lattices used by single properties
MORE = dict(
    hexdia=[[x, y, z + d] for x, y, z in BASIS["hcp"] for d in (0, .375)],
    a15=[[0, 0, 0], [.5, .5, .5], [.25, 0, .5], [.75, 0, .5], [.5, .25, 0], [.5, .75, 0], [0, .5, .25], [0, .5, .75]],
)
PHI = (1 + 5 ** .5) / 2
ICO = [[0, 0, 0]] + [[0, s, t * PHI] for s in (1, -1) for t in (1, -1)] + [[s, t * PHI, 0] for s in (1, -1) for t in (1, -1)] + \
    [[t * PHI, 0, s] for s in (1, -1) for t in (1, -1)]


class Config:
    def __init__(self, box, pos, types, ids):
        self.box, self.pos = np.array(box, float), np.array(pos, float)
        self.types, self.ids = list(types), list(ids)
        self.n = len(self.pos)

    def copy(self):
        return Config(self.box.copy(), self.pos.copy(), list(self.types), list(self.ids))

    def volume(self):
        return abs(np.linalg.det(self.box))

    def system(self, pc=None):
        import pyscal.core as core
        s = core.System()
        s.box = self.box.tolist()
        s.atoms = self.atoms()
        return s

    def atoms(self):
        from pyscal.catom import Atom
        return [Atom(pos=[float(v) for v in p], id=int(i), type=int(t)) for p, i, t in zip(self.pos, self.ids, self.types)]


def gen_spec(rng, sizes=("tiny", "small"), kinds=("lattice", "random"), boxes=("orth", "tri", "rot"), ntypes=(1, 2, 3)):
    size = rng.choice(list(sizes))
    sp = dict(seed=rng.getrandbits(30), kind=rng.choice(list(kinds)), box=rng.choice(list(boxes)), size=size,
              ntypes=rng.choice(list(ntypes)), scale=rng.choice([1.0, 1.0, 3.2, 0.4, 12.0, 0.004, 170.0]),
              noise=rng.choice([0.0, 0.02, 0.05, 0.1]), ids=rng.choice(["seq", "seq", "gap", "shuffled"]))
    if sp["kind"] == "lattice":
        sp["lat"] = rng.choice(sorted(BASIS))
        nb = len(BASIS[sp["lat"]])
        lo, hi = dict(tiny=(1, 24), small=(20, 160), mid=(200, 420), big=(2310, 3200))[size]
        for _ in range(200):
            reps = [rng.randrange(1, dict(tiny=4, small=6, mid=8, big=15)[size]) for _ in range(3)]
            if lo <= nb * reps[0] * reps[1] * reps[2] <= hi and max(reps) <= 3 * min(reps):
                break
        else:
            k = max(1, round((lo / nb) ** (1 / 3.)))
            while nb * k ** 3 < lo:
                k += 1
            reps = [k, k, k]
        sp["reps"] = reps
        if rng.random() < .1:
            sp["uni"] = [rng.choice([-1, 0, 1]) for _ in range(3)]
    else:
        sp["n"] = dict(tiny=rng.choice([1, 2, 3, 4, 5, 8, 13]), small=rng.randrange(20, 120), mid=rng.randrange(200, 330),
                       big=rng.randrange(2305, 2600))[size]
        sp["dmin"] = rng.choice([0.3, 0.6, 0.75])
    return sp


def make(spec):
    r = np.random.RandomState(spec["seed"])
    if spec["kind"] == "lattice":
        basis = np.array(BASIS.get(spec["lat"]) or MORE[spec["lat"]], float)
        cell = np.array(CELL.get(spec["lat"], (1.0, 1.0, 1.0)))
        reps = np.array(spec["reps"])
        frac = np.array([[(b + [i, j, k]) / reps for b in basis]
                         for i in range(reps[0]) for j in range(reps[1]) for k in range(reps[2])]).reshape(-1, 3)
        lens = cell * reps
    elif spec["kind"] == "stack":
        # close packed layers in any order, of single atoms or of pairs of atoms
        frac, lens = [], np.array([spec["reps"][0], spec["reps"][1] * 3 ** .5, len(spec["seq"]) * (2 / 3.) ** .5])
        for l, c in enumerate(spec["seq"]):
            for b in ((0, 0), (.5, .5)):
                for i in range(spec["reps"][0]):
                    for j in range(spec["reps"][1]):
                        x = [(i + b[0]) / spec["reps"][0], (j + b[1] + "ABC".index(c) / 3.) / spec["reps"][1], l / len(spec["seq"])]
                        frac.append(x)
                        if spec["pairs"]:
                            frac.append([x[0], x[1], x[2] + .75 / len(spec["seq"])])
        frac = np.array(frac)
    elif spec["kind"] == "ico":
        q, _ = np.linalg.qr(r.normal(size=(3, 3)))
        lens = np.array([6., 6., 6.]) * r.uniform(.9, 1.3)
        frac = (np.array(ICO) @ q) / lens + r.rand(3)
        if spec.get("extra"):
            far = np.array([.5, .5, .5]) + frac[0]
            frac = np.vstack([frac, far])
    else:
        n = spec["n"]
        L = n ** (1 / 3.)
        asp = r.uniform(.8, 1.25, 3)
        lens = L * asp / np.prod(asp) ** (1 / 3.)
        frac = _poisson(r, n, lens, spec.get("dmin", .6))
    box = np.diag(lens)
    if spec["box"] != "orth":
        m = .35 * lens.min()
        box[1, 0], box[2, 0], box[2, 1] = r.uniform(-m, m, 3)
        if spec["kind"] == "lattice" and spec.get("noise", 0) == 0 and r.rand() < .5:
            pass
    if spec.get("uni"):
        # the same crystal in another cell
        u = np.array([[1, 0, 0], [spec["uni"][0], 1, 0], [spec["uni"][1], spec["uni"][2], 1]], float)
        frac = frac @ np.linalg.inv(u)
        box = u @ box
    if spec["box"] == "rot":
        q, _ = np.linalg.qr(r.normal(size=(3, 3)))
        if np.linalg.det(q) < 0:
            q[:, 0] *= -1
        box = box @ q
    if spec.get("left"):
        # the same lattice, by vectors of the other handedness
        box, frac = box[[1, 0, 2]], frac[:, [1, 0, 2]]
    if spec.get("vac") and len(frac) > spec["vac"]:
        frac = np.delete(frac, r.choice(len(frac), spec["vac"], replace=False), axis=0)
    noise = spec.get("noise", 0)
    f = frac
    if noise:
        f = frac + np.linalg.solve(box.T, r.normal(0, noise, frac.shape).T).T
    f = f % 1.0
    f[f > 1 - 1e-9] = 0.0
    pos = f @ box * spec.get("scale", 1)
    box = box * spec.get("scale", 1)
    n = len(pos)
    nt = min(spec.get("ntypes", 1), n)
    types = [1 + k for k in range(nt)] + [int(1 + r.randint(nt)) for _ in range(n - nt)]
    r.shuffle(types)
    ids = list(range(1, n + 1))
    if spec.get("ids") == "gap":
        ids = [3 * i + 5 for i in ids]
    elif spec.get("ids") == "shuffled":
        r.shuffle(ids)
        ids = [int(i) for i in ids]
    return Config(box, pos, types, ids)


def _poisson(r, n, lens, dmin):
    """random points, no two closer than dmin (in units of the mean spacing) where that is possible"""
    out = []
    tries = 0
    while len(out) < n:
        p = r.rand(3)
        tries += 1
        if out and tries < 30 * n:
            d = np.array(out) - p
            d -= np.round(d)
            if np.min(np.sum((d * lens) ** 2, axis=1)) < dmin ** 2:
                continue
        out.append(p)
    return np.array(out)


def widths(box):
    """perpendicular widths of a cell"""
    box = np.asarray(box, float)
    v = abs(np.linalg.det(box))
    return np.array([v / np.linalg.norm(np.cross(box[(i + 1) % 3], box[(i + 2) % 3])) for i in range(3)])


def min_image(box, d):
    """shortest image of displacement(s) d, exact for any cell"""
    box = np.asarray(box, float)
    d = np.atleast_2d(d)
    f = np.linalg.solve(box.T, d.T).T
    f -= np.round(f)
    best, bn = None, None
    k = np.arange(-1, 2)
    # a reduced search is exact for the moderately skewed cells generated here
    for s in np.array(np.meshgrid(k, k, k)).T.reshape(-1, 3):
        v = (f + s) @ box
        nn = np.sum(v * v, axis=1)
        if best is None:
            best, bn = v, nn
        else:
            m = nn < bn - 1e-15
            best = np.where(m[:, None], v, best)
            bn = np.minimum(bn, nn)
    return best, np.sqrt(bn)


class Images:
    """all periodic images of a configuration within reach of it"""

    def __init__(self, cfg, rmax, ext=None):
        from scipy.spatial import cKDTree
        w = widths(cfg.box)
        f = np.linalg.solve(cfg.box.T, cfg.pos.T).T
        k = [int(np.ceil(rmax / w[i] + (f[:, i].max() - f[:, i].min() if cfg.n else 1))) for i in range(3)]
        sh = np.array(np.meshgrid(*[np.arange(-x, x + 1) for x in k], indexing="ij")).reshape(3, -1).T
        self.pos = (cfg.pos[None, :, :] + (sh @ cfg.box)[:, None, :]).reshape(-1, 3)
        self.idx = np.tile(np.arange(cfg.n), len(sh))
        self.zero = np.repeat(np.all(sh == 0, axis=1), cfg.n)
        self.tree = cKDTree(self.pos)
        self.cfg = cfg

    def around(self, i, r):
        """(atom index, displacement, distance) of all images within r of atom i, without itself, by distance"""
        c = self.cfg.pos[i]
        hit = np.array(self.tree.query_ball_point(c, r), int)
        d = self.pos[hit] - c
        dist = np.sqrt(np.sum(d * d, axis=1))
        keep = ~((self.idx[hit] == i) & self.zero[hit])
        hit, d, dist = hit[keep], d[keep], dist[keep]
        o = np.argsort(dist, kind="stable")
        return self.idx[hit][o], d[o], dist[o]

    def knn(self, i, k):
        dd, hit = self.tree.query(self.cfg.pos[i], k + 1)
        dd, hit = np.atleast_1d(dd), np.atleast_1d(hit)
        keep = ~((self.idx[hit] == i) & self.zero[hit])
        hit = hit[keep][:k]
        d = self.pos[hit] - self.cfg.pos[i]
        return self.idx[hit], d, np.sqrt(np.sum(d * d, axis=1))


def shrink_spec(spec):
    for k, small in (("vac", 0), ("uni", None), ("noise", 0.0), ("box", "orth"), ("ntypes", 1), ("scale", 1.0), ("ids", "seq"), ("left", False)):
        if spec.get(k, small) != small:
            yield dict(spec, **{k: small})
    if "n" in spec:
        for m in (1, 2, spec["n"] // 2, spec["n"] - 1):
            if 1 <= m < spec["n"]:
                yield dict(spec, n=m)
    if "reps" in spec:
        for i in range(len(spec["reps"])):
            if spec["reps"][i] > 1:
                r = list(spec["reps"])
                r[i] -= 1
                yield dict(spec, reps=r)
