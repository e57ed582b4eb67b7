"""A System under simulation next to its reference configuration: seeded histories of
changes to the configuration, other analyses in between, and faults in the middle of
them.  Properties add operations that compare results with reference models."""
import warnings
import numpy as np
from sim import sysgen as G, rt, dump as D


# ---------------------------------------------------------------------------
# plans
# ---------------------------------------------------------------------------
HISTORY = ["config", "config", "move", "moveall", "box", "add", "types", "noise", "noise", "noise", "fail", "fail", "nop"]
ANALYSES = ["cut", "cutfilter", "adaptive", "number", "sann", "voronoi", "vorofilter", "vorovector", "q", "aq", "qcond", "solids",
            "cluster", "clusterattr", "acna", "cna", "diamond", "diamondneigh", "centro", "disorder", "entropy", "angular", "chi", "rdf",
            "sro", "ase", "distance", "atomcutoff", "concentration", "extract", "wronguse"]
HEAVY = {"chi", "angular", "extract", "sro", "vorovector", "voronoi", "vorofilter"}


def gen_fault(rng, rate=.5, kinds=("alloc", "alloc", "interrupt", "callback")):
    if rng.random() > rate:
        return None
    k = rng.choice(list(kinds))
    if k == "alloc":
        return dict(op="alloc", at=int(rng.expovariate(1 / rng.choice([3., 40., 600., 6000.]))), persist=rng.random() < .2)
    if k == "interrupt":
        return dict(op="interrupt", at=1 + int(rng.expovariate(1 / rng.choice([10., 60., 600.]))))
    return dict(op="callback", at=int(rng.expovariate(1 / 4.)))


def gen_world(rng, nspecs=(1, 2, 3), sizes=("tiny", "small", "mid"), big=.04, **kw):
    out = []
    for _ in range(rng.choice(list(nspecs))):
        sz = ("big",) if rng.random() < big else sizes
        out.append(G.gen_spec(rng, sizes=sz, **kw))
        if rng.random() < .08:
            out[-1]["left"] = True
    return out


def gen_history(rng, nspecs, length=(0, 1, 2, 4), kinds=None, analyses=None):
    kinds = kinds or rng.sample(HISTORY, rng.choice([3, 5, len(HISTORY)]))
    analyses = analyses or rng.sample(ANALYSES, rng.choice([2, 5, 12]))
    ops = []
    for _ in range(rng.choice(list(length))):
        k = rng.choice(kinds)
        op = dict(k=k, seed=rng.getrandbits(24))
        if k == "config":
            op.update(spec=rng.randrange(nspecs), fresh=rng.random() < .2)
        elif k in ("noise", "fail"):
            op["a"] = rng.choice(analyses)
            if k == "fail":
                op["fault"] = gen_fault(rng, 1)
        ops.append(op)
    return ops


def shrink_world(plan):
    for i, sp in enumerate(plan["specs"]):
        for s in G.shrink_spec(sp):
            yield dict(plan, specs=plan["specs"][:i] + [s] + plan["specs"][i + 1:])


# ---------------------------------------------------------------------------
class World:
    def __init__(self, ctx, specs, client=0):
        self.ctx, self.specs = ctx, specs
        self.cfg = G.make(specs[0])
        self.spec = specs[0]
        self.touched = False           # positions are no longer those of a lattice
        self.s = ctx.must("build", self.cfg.system)
        self.s_failed = 0

    def rng(self, op):
        return np.random.RandomState(op.get("seed", 0))

    def spacing(self):
        return (self.cfg.volume() / self.cfg.n) ** (1 / 3.)

    def assign(self):
        self.s.box = self.cfg.box.tolist()
        self.s.atoms = self.cfg.atoms()

    # -- history -----------------------------------------------------------
    def history(self, op):
        """apply one operation of the history"""
        ctx, s, cfg, r = self.ctx, self.s, self.cfg, self.rng(op)
        k = op["k"]
        if k == "config":
            self.spec = self.specs[op["spec"] % len(self.specs)]
            self.cfg = cfg = G.make(self.spec)
            self.touched = False
            if op.get("fresh"):
                self.s = ctx.must("build", cfg.system)
            else:
                def put():
                    s.box = cfg.box.tolist() if op["seed"] % 2 else cfg.box.copy()
                    s.atoms = cfg.atoms()
                ctx.must("assign configuration", put)
        elif k == "move":
            self.touched = True
            for i in r.choice(cfg.n, min(cfg.n, 1 + r.randint(4)), replace=False):
                f = r.uniform(-.2, 1.2, 3) if r.rand() < .2 else r.rand(3)
                p = f @ cfg.box
                if r.rand() < .6:
                    p = cfg.pos[i] + r.normal(0, .05 * self.spacing(), 3)
                p = self.inside(p)
                if self.crowded(i, p):
                    continue

                def put():
                    a = s.get_atom(int(i))
                    a.pos = [float(v) for v in p]
                    s.set_atom(a)
                ctx.must("move an atom", put)
                cfg.pos[i] = p
        elif k == "moveall":
            self.touched = True
            d = r.normal(0, .03 * self.spacing(), (cfg.n, 3))
            new = np.array([self.inside(p) for p in cfg.pos + d])

            def put():
                atoms = s.atoms
                for a, p in zip(atoms, new):
                    a.pos = [float(v) for v in p]
                s.atoms = atoms
            ctx.must("assign moved atoms", put)
            cfg.pos = new
        elif k == "box":
            self.touched = True
            f = r.uniform(1.0, 1.15, 3)
            box = cfg.box * f[:, None] if r.rand() < .7 else cfg.box * f[0]
            if r.rand() < .3 and self.spec["box"] != "orth":
                box = box.copy()
                box[1] += .1 * box[0]

            def put():
                s.box = box.tolist()
            ctx.must("assign box", put)
            cfg.box = np.array(box)
        elif k == "add":
            if cfg.n > 1000:
                return
            self.touched = True
            new = []
            for _ in range(1 + r.randint(3)):
                p = r.rand(3) @ cfg.box
                if not self.crowded(None, p) and all(np.linalg.norm(p - q) > .4 * self.spacing() for q, _ in new):
                    new.append((p, int(1 + r.randint(2))))
            if not new:
                return
            from pyscal.catom import Atom
            ids = [max(cfg.ids) + 1 + j for j in range(len(new))]
            ctx.must("add atoms", lambda: s.add_atoms([Atom(pos=[float(v) for v in p], id=i, type=t) for (p, t), i in zip(new, ids)]))
            cfg.pos = np.vstack([cfg.pos] + [p for p, _ in new])
            cfg.types += [t for _, t in new]
            cfg.ids += ids
            cfg.n = len(cfg.pos)
        elif k == "types":
            for i in r.choice(cfg.n, min(cfg.n, 1 + r.randint(5)), replace=False):
                t = int(1 + r.randint(3))

                def put():
                    a = s.get_atom(int(i))
                    a.type = t
                    s.set_atom(a)
                ctx.must("change a type", put)
                cfg.types[i] = t
        elif k in ("noise", "fail"):
            self.analysis(op)
        ctx.event(k, op.get("a"), cfg.n)

    def inside(self, p):
        """keep positions within a fifth of the box around it"""
        f = np.linalg.solve(self.cfg.box.T, p)
        out = (f < -.2) | (f > 1.2)
        f[out] %= 1.0
        return f @ self.cfg.box if out.any() else p

    def crowded(self, i, p):
        keep = [j for j in range(self.cfg.n) if j != i]
        if not keep:
            return False
        return G.min_image(self.cfg.box, self.cfg.pos[keep] - p)[1].min() < .4 * self.spacing()

    # -- analyses as noise ---------------------------------------------------
    def analysis(self, op, fault=None):
        """some analysis, maybe with a fault in the middle; its outcome is not judged here"""
        ctx, cfg = self.ctx, self.cfg
        if cfg.n > 1500 and op["a"] in HEAVY:
            return False, None
        flt = op.get("fault")
        boom = [flt["at"] if flt and flt["op"] == "callback" else -1]

        def cb(atom):
            boom[0] -= 1
            if boom[0] == -1:
                ctx.fault_fired("callback-exception")
                raise rt.Injected("callback")
            return atom.type == 1
        fn = lambda: self.run_analysis(op["a"], op.get("seed", 0), cb)
        ok, v, fired = self.under_fault(flt, fn)
        if fired:
            self.s_failed += not ok
            ctx.probe("fault_in_" + op["a"])
            if not ok and (flt["op"] == "interrupt" or (flt.get("persist") and op["a"].startswith("voro"))):
                # an interrupt may hit between any two statements, and without any memory the box that is exchanged for
                # Voronoi cells cannot be put back: the user assigns the configuration again
                ctx.must("assign configuration", self.assign)
        ctx.state("analysis", op["a"], flt and flt["op"], ok, cfg.n < 200)
        return ok, v

    def under_fault(self, flt, fn):
        ctx = self.ctx
        fired = False
        if flt and flt["op"] == "alloc":
            ctx.alloc.arm("csystem", flt["at"], persist=1 if flt.get("persist") else 0)
        elif flt and flt["op"] == "interrupt":
            ctx.interrupt_after(flt["at"])
        try:
            ok, v = ctx.call(fn)
        finally:
            if flt and flt["op"] == "alloc":
                n = ctx.alloc.disarm()
                if n:
                    fired = True
                    ctx.fault_fired("allocation", n)
            elif flt and flt["op"] == "interrupt":
                fired = ctx.interrupt_off()
        if flt and flt["op"] == "callback" and not ok and isinstance(v, rt.Injected):
            fired = True
        if not ok:
            v = "%s: %s" % (type(v).__name__, str(v)[:100])
        return ok, v, fired

    def rcut(self, x=1.4):
        """a cutoff that is safe for the cell as it is stored"""
        return min(x * self.spacing(), .49 * self.cellwidth())

    def cellwidth(self):
        """smallest width of the cell that is stored, images of small configurations included"""
        return (G.widths(self.cfg.box) * self.images()).min()

    def images(self):
        """the stored cell has this many cells of the configuration in each direction"""
        n, total = self.cfg.n, self.s.ntotal
        if total == n or total % n:
            return np.ones(3, int)
        pos = np.array([self.s.get_atom(i).pos for i in range(0, total, n)])
        f = np.round(np.linalg.solve(self.cfg.box.T, (pos - pos[0]).T).T).astype(int)
        return np.ptp(f, axis=0) + 1

    def run_analysis(self, a, seed, cb):
        s, cfg = self.s, self.cfg
        rc = self.rcut()
        r = np.random.RandomState(seed)
        q = int(2 + r.randint(11))
        if a == "cut":
            s.find_neighbors(method="cutoff", cutoff=rc)
        elif a == "cutfilter":
            s.find_neighbors(method="cutoff", cutoff=rc * [1, .7, 1.3][r.randint(3)] if rc * 1.3 < .49 * self.cellwidth() else rc, filter=["type", "type_r"][seed % 2])
        elif a == "adaptive":
            s.find_neighbors(method="cutoff", cutoff=[0, "adaptive"][seed % 2], nlimit=4 + seed % 5)
        elif a == "number":
            s.find_neighbors(method="number", nmax=4 + seed % 10)
        elif a == "sann":
            s.find_neighbors(method="cutoff", cutoff="sann")
        elif a == "voronoi":
            s.find_neighbors(method="voronoi", voroexp=1 + seed % 3)
        elif a == "vorofilter":
            s.find_neighbors(method="voronoi", filter=["type", "type_r"][seed % 2])
        elif a == "vorovector":
            s.find_neighbors(method="voronoi")
            s.calculate_vorovector(edge_cutoff=[.05, .01, .2][r.randint(3)], area_cutoff=[.01, .1][r.randint(2)], edge_length=bool(r.randint(2)))
        elif a == "q":
            s.find_neighbors(method="cutoff", cutoff=rc)
            s.calculate_q([q, 6])
        elif a == "aq":
            s.find_neighbors(method="cutoff", cutoff=rc)
            s.calculate_q(q, averaged=True)
        elif a == "qcond":
            s.find_neighbors(method="cutoff", cutoff=rc)
            s.calculate_q(q, averaged=True, condition=cb)
        elif a == "solids":
            s.find_neighbors(method="cutoff", cutoff=rc)
            s.find_solids(bonds=[6, .5][seed % 2], q=[6, 4][seed % 3 == 0], threshold=.4, avgthreshold=.4, right=bool(seed % 5),
                          cluster=bool(seed % 7), cutoff=[0, rc * .9][seed % 11 == 0])
        elif a == "cluster":
            s.find_neighbors(method="cutoff", cutoff=rc)
            s.cluster_atoms(cb, cutoff=[0, rc * .9][seed % 3 == 0])
        elif a == "clusterattr":
            s.find_neighbors(method="cutoff", cutoff=rc)
            s.cluster_atoms("solid")
        elif a == "acna":
            s.find_neighbors(method="number", nmax=14, assign_neighbor=False)
            s.calculate_cna()
        elif a == "cna":
            s.calculate_cna(lattice_constant=rc)
        elif a == "diamond":
            s.identify_diamond()
        elif a == "diamondneigh":
            s.find_diamond_neighbors()
        elif a == "centro":
            s.calculate_centrosymmetry(nmax=4 + 2 * (seed % 5))
        elif a == "disorder":
            s.find_neighbors(method="cutoff", cutoff=rc)
            s.calculate_disorder(averaged=bool(seed % 2), q=q)
        elif a == "entropy":
            s.find_neighbors(method="cutoff", cutoff=rc)
            s.calculate_entropy(rc, sigma=[.2, .2, .03, .08, .5][r.randint(5)] * rc, h=[.05, .05, .02][r.randint(3)] * rc, averaged=bool(r.randint(3)), local=bool(seed % 2), rstart=.001 * rc,
                                **([{}, {}, dict(ra=rc * .9, switching_function=True, M=10, N=5)][r.randint(3)]))
        elif a == "angular":
            s.find_neighbors(method="number", nmax=4)
            s.calculate_angularcriteria()
        elif a == "chi":
            s.find_neighbors(method="cutoff", cutoff=min(rc, 1.2 * self.spacing()))
            s.calculate_chiparams(angles=bool(seed % 2))
        elif a == "rdf":
            s.calculate_rdf(histobins=20)
        elif a == "sro":
            s.find_neighbors(method="cutoff", cutoff=rc)
            s.calculate_pmsro(reference_type=1, compare_type=[2, 2, 3][r.randint(3)], shells=[1, 1, 2][r.randint(3)], average=bool(r.randint(2)), delta=bool(r.randint(2)))
        elif a == "ase":
            s.to_ase(species=D.SYMBOLS[:len(set(cfg.types))])
        elif a == "distance":
            s.get_distance(s.get_atom(0), s.get_atom(cfg.n - 1), vector=True)
        elif a == "atomcutoff":
            s.find_neighbors(method="cutoff", cutoff=rc)
            s.set_atom_cutoff(factor=1.1)
        elif a == "concentration":
            s.get_concentration()
        elif a == "extract":
            if cfg.n < 60:
                s.extract_cubic_box(repeat=(1, 1, 1))
        elif a == "wronguse":
            [lambda: s.calculate_q(99), lambda: s.find_solids(q=77), lambda: s.calculate_centrosymmetry(nmax=3),
             lambda: s.cluster_atoms("nothing"), lambda: s.calculate_q(6, condition="nothing"),
             lambda: s.find_neighbors(method="cutoff", cutoff=0, threshold=.5),
             lambda: s.find_neighbors(method="cutoff", cutoff=40 * self.spacing())][seed % 7]()
        else:
            raise rt.HarnessError("analysis %r" % a)

    # -- the stored configuration --------------------------------------------
    def check_config(self, what=""):
        """the system shows exactly the configuration it was given"""
        ctx, s, cfg = self.ctx, self.s, self.cfg
        with ctx.judging():
            atoms = s.atoms
            if len(atoms) != cfg.n or s.natoms != cfg.n:
                ctx.fail("wrong-configuration", "%s: %d atoms (natoms %d) instead of %d" % (what, len(atoms), s.natoms, cfg.n))
                return
            pos = np.array([a.pos for a in atoms])
            if not np.array_equal(pos, cfg.pos):
                i = int(np.argmax(np.abs(pos - cfg.pos).sum(1)))
                ctx.fail("wrong-configuration", "%s: atom %d is at %s instead of %s" % (what, i, pos[i].tolist(), cfg.pos[i].tolist()))
            ids = [a.id for a in atoms]
            if ids != cfg.ids:
                ctx.fail("wrong-configuration", "%s: ids %s instead of %s" % (what, ids[:6], cfg.ids[:6]))
            types = [a.type for a in atoms]
            if types != cfg.types:
                ctx.fail("wrong-configuration", "%s: types %s instead of %s" % (what, types[:8], cfg.types[:8]))
            box = np.array(s.box, float)
            if box.shape != (3, 3) or not np.allclose(box, cfg.box, rtol=1e-14, atol=0):
                ctx.fail("wrong-configuration", "%s: box %s instead of %s" % (what, box.tolist(), cfg.box.tolist()))

    def ok_cutoff(self, images, want, eps=1e-6):
        """a cutoff near want that no pair distance comes close to"""
        ds = []
        for i in range(min(self.cfg.n, 400)):
            ds.append(images.around(i, want * 1.25)[2])
        d = np.sort(np.concatenate(ds)) if ds else np.array([])
        d = d[(d > want * .8) & (d < want * 1.2)]
        if len(d) == 0:
            return want
        edges = np.concatenate([[want * .8], d, [want * 1.2]])
        gaps = np.diff(edges)
        mid = .5 * (edges[1:] + edges[:-1])
        good = np.where(gaps > eps * want * 10)[0]
        if len(good) == 0:
            return None
        j = good[np.argmin(np.abs(mid[good] - want))]
        return float(mid[j])


class Heads:
    """index of the atom of the configuration of which a position is an image"""

    def __init__(self, cfg):
        from scipy.spatial import cKDTree
        self.box = cfg.box
        self.tree = cKDTree(self.key(cfg.pos))

    def key(self, p):
        t = 2 * np.pi * np.linalg.solve(self.box.T, np.asarray(p, float).reshape(-1, 3).T).T
        return np.hstack([np.cos(t), np.sin(t)])

    def __call__(self, pos):
        d, j = self.tree.query(self.key(pos))
        if len(d) and d.max() > 1e-5:
            raise ValueError("a stored atom is no image of any atom of the configuration")
        return j


# ---------------------------------------------------------------------------
# neighbor lists against a reference
# ---------------------------------------------------------------------------
def match(got_idx, got_vec, ref_idx, ref_vec, tol):
    """None if both are the same set of (atom, displacement)"""
    got_vec, ref_vec = np.asarray(got_vec, float).reshape(-1, 3), np.asarray(ref_vec, float).reshape(-1, 3)
    if len(got_vec) != len(ref_vec):
        return "%d neighbors instead of %d" % (len(got_vec), len(ref_vec))
    if len(got_vec) == 0:
        return None
    d = np.abs(got_vec[:, None, :] - ref_vec[None, :, :]).max(axis=2)
    j = d.argmin(axis=1)
    worst = d[np.arange(len(j)), j].max()
    if worst > tol:
        k = int(d[np.arange(len(j)), j].argmax())
        return "neighbor at %s (distance %.6g) is not within reach" % (got_vec[k].tolist(), np.linalg.norm(got_vec[k]))
    if len(set(j.tolist())) != len(j):
        return "a neighbor is listed twice"
    bad = [k for k in range(len(j)) if got_idx[k] != ref_idx[j[k]]]
    if bad:
        return "neighbor at %s is atom %d, not %d" % (got_vec[bad[0]].tolist(), ref_idx[j[bad[0]]], got_idx[bad[0]])
    return None


class Lists:
    """neighbor lists as the system shows them, for the atoms of the configuration"""

    def __init__(self, w, sample=None):
        self.w, self.s, self.cfg = w, w.s, w.cfg
        self.m = w.images()
        if np.prod(self.m) * w.cfg.n != w.s.ntotal:
            raise ValueError("%d atoms are stored for a configuration of %d" % (w.s.ntotal, w.cfg.n))
        self.scale = w.spacing()
        self.pick = range(w.cfg.n) if sample is None or w.cfg.n <= sample else \
            sorted(np.random.RandomState(7).choice(w.cfg.n, sample, replace=False).tolist())
        self.cell = w.cfg.box * self.m[:, None]
        self.inv = np.linalg.inv(self.cell)
        self.atoms = {i: w.s.get_atom(i) for i in self.pick}
        self.pos = {i: np.array(a.pos) for i, a in self.atoms.items()}
        self.heads = Heads(w.cfg)
        self.head_of = {}
        self.tol = 1e-7 * self.scale + 1e-9 * np.abs(w.cfg.pos).max()
        got = self.head(list(self.pick))
        if list(got) != list(self.pick):
            raise ValueError("stored atoms do not begin with those of the configuration")

    def head(self, idx):
        """which atom of the configuration the stored atoms are (images of)"""
        new = [int(j) for j in idx if int(j) not in self.head_of]
        if new:
            if min(new) < 0 or max(new) >= self.s.ntotal:
                raise ValueError("atoms %s do not exist" % [j for j in new if not 0 <= j < self.s.ntotal][:5])
            for j in new:
                if j not in self.pos:
                    self.pos[j] = np.array(self.s.get_atom(j).pos)
            for j, h in zip(new, self.heads([self.pos[j] for j in new])):
                self.head_of[j] = int(h)
        return np.array([self.head_of[int(j)] for j in idx], int)

    def of(self, i):
        a = self.atoms[i]
        nb = list(a.neighbors)
        if nb and (min(nb) < 0 or max(nb) >= self.s.ntotal):
            raise ValueError("neighbors %s of atom %d do not exist" % (nb[:5], i))
        return nb, np.array(a.neighbor_vector, float).reshape(-1, 3), np.array(a.neighbor_distance, float), np.array(a.neighbor_weights, float)

    def consistent(self, i):
        """indices, vectors and distances tell the same; None or what differs"""
        nb, v, d, wt = self.of(i)
        if not (len(nb) == len(v) == len(d) == len(wt) == self.atoms[i].coordination):
            return "lists of different lengths: %d %d %d %d, coordination %d" % (len(nb), len(v), len(d), len(wt), self.atoms[i].coordination)
        if len(nb) == 0:
            return None
        if np.abs(np.linalg.norm(v, axis=1) - d).max() > self.tol:
            return "distances are not the lengths of the vectors"
        self.head(nb)
        delta = np.array([self.pos[j] for j in nb]) - self.pos[i] - v
        f = delta @ self.inv
        if np.abs((f - np.round(f)) @ self.cell).max() > self.tol:
            return "vectors do not lead to the listed atoms"
        return None


# ---------------------------------------------------------------------------
# everything an object shows
# ---------------------------------------------------------------------------
SKIP = {"get_q", "get_qlm", "set_q"}
_names = []


def atom_names():
    if not _names:
        from pyscal.catom import Atom
        _names.extend(x for x in dir(Atom) if not x.startswith("_") and x not in SKIP)
    return _names


def plain(v):
    """a value that can be compared, bit by bit"""
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, np.ndarray)):
        return [plain(x) for x in v]
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return float(v).hex() if v == v else "nan"
    if v is None or isinstance(v, str):
        return v
    return "<%s>" % type(v).__name__


def fingerprint(atoms):
    """{field: hash of its values for all of the atoms}"""
    import hashlib
    out = {}
    for name in atom_names():
        vals = []
        for a in atoms:
            try:
                vals.append(getattr(a, name))
            except Exception as e:
                vals.append(type(e).__name__)
        if name in ("allq", "allaq"):
            for j in range(max([len(v) for v in vals], default=0)):
                out["%s[%d]" % (name, j)] = hashlib.sha256(repr([v[j:j + 1] for v in vals]).encode()).hexdigest()[:16]
            continue
        out[name] = hashlib.sha256(repr(vals).encode()).hexdigest()[:16]
    return out


def differs(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


def show_system(s, most=None):
    """what the system and (most of) its atoms show"""
    n = s.ntotal
    out = fingerprint(s.get_all_atoms() if most is None or n <= most else [s.get_atom(int(i)) for i in np.unique(np.linspace(0, n - 1, most).astype(int))])
    out["(box)"] = repr(plain(s.box))
    out["(numbers)"] = repr((s.natoms, s.ntotal, bool(s.neighbors_found)))
    return out
