"""A System keeps exactly the configuration and the fields it was given"""
import gc, warnings
import numpy as np
from sim import sysgen as G, world as W, rt

ID = "C09"
QUICK, THOROUGH, TIMEOUT = 520, 30000, 180
RULE = ("a run = a history of configurations assigned (into fresh and used Systems), single atoms and fields set, atoms added, lists and atoms handed in or out "
        "modified by their owner, cells replaced, replicated and remapped, analyses in between; allocation failures inside of assignments; after every "
        "step everything the System shows is compared with a model; non-trivial = more than one change was made")

FIELDS = dict(mask=lambda r: int(r.randint(2)), energy=lambda r: float(r.normal()), avg_energy=lambda r: float(r.normal()), entropy=lambda r: float(r.normal()),
              avg_entropy=lambda r: float(r.normal()), structure=lambda r: int(r.randint(5)), disorder=lambda r: float(r.rand()),
              avg_disorder=lambda r: float(r.rand()), centrosymmetry=lambda r: float(r.rand()), volume=lambda r: float(r.rand()),
              avg_volume=lambda r: float(r.rand()), angular=lambda r: float(r.rand()), avg_angular=lambda r: float(r.rand()),
              sro=lambda r: [float(v) for v in r.rand(2)], chiparams=lambda r: [int(v) for v in r.randint(0, 9, 9)],
              cluster=lambda r: int(r.randint(9)), condition=lambda r: int(r.randint(2)), solid=lambda r: bool(r.randint(2)),
              surface=lambda r: bool(r.randint(2)), largest_cluster=lambda r: bool(r.randint(2)), cutoff=lambda r: float(r.rand()),
              vorovector=lambda r: [int(v) for v in r.randint(0, 9, 4)], vertex_numbers=lambda r: [int(v) for v in r.randint(0, 9, 6)],
              vertex_vectors=lambda r: [float(v) for v in r.rand(6)], avg_sij=lambda r: float(r.rand()))
KINDS = ["set", "set", "fields", "fields", "list", "getcopy", "alias", "assign", "assign", "add", "box", "repeat", "remap", "move", "moveall", "types",
         "config", "config", "noise", "noise", "fail", "q", "wrongadd", "cubic", "remap"]


def gen(rng, tier):
    specs = W.gen_world(rng, big=.01, sizes=rng.choice([("tiny",), ("tiny", "small"), ("tiny", "small", "mid")]))
    kinds = rng.sample(KINDS, rng.choice([3, 6, len(KINDS)]))
    ana = rng.sample(W.ANALYSES, 6)
    if rng.random() < .12:
        # cells that can be remapped and cut out
        specs = W.gen_world(rng, big=0, sizes=("tiny", "small", "small"), boxes=("orth",))
        kinds = ["remap", "remap", "remap", "cubic", "add", "set", "repeat", "config"]
    ops = []
    for _ in range(rng.choice([1, 2, 4, 7])):
        k = rng.choice(kinds)
        op = dict(k=k, seed=rng.getrandbits(24))
        if k in ("config", "assign"):
            op.update(spec=rng.randrange(len(specs)), fresh=rng.random() < .15)
        if k in ("set", "fields", "assign", "add", "list", "box"):
            op["fault"] = W.gen_fault(rng, .35, kinds=("alloc",))
        if k in ("noise", "fail"):
            op["a"] = rng.choice(ana)
            if k == "fail":
                op["fault"] = W.gen_fault(rng, 1, kinds=("alloc", "callback"))
        ops.append(op)
    return dict(specs=specs, ops=ops, trace=False, nobox=rng.random() < .12)


class Model(W.World):
    """adds what users store in their atoms"""

    def __init__(self, *a):
        W.World.__init__(self, *a)
        self.custom = [{} for _ in range(self.cfg.n)]
        self.n0 = self.cfg.n

    def history(self, op):
        before = self.cfg.n
        W.World.history(self, op)
        if op["k"] == "config":
            self.custom = [{} for _ in range(self.cfg.n)]
        else:
            self.custom += [{} for _ in range(self.cfg.n - before)]

    def verify(self, what):
        ctx, s, cfg = self.ctx, self.s, self.cfg
        self.check_config(what)
        with ctx.judging():
            atoms = s.atoms
            for i, a in enumerate(atoms):
                c = {k: v for k, v in dict(a.custom).items() if k != "cosines"}
                ctx.check(c == self.custom[i], "wrong-custom", lambda: "%s: atom %d has %s instead of %s" % (what, i, c, self.custom[i]))
                ctx.check(a.loc == i, "wrong-location", lambda: "%s: atom %d says it is number %d" % (what, i, a.loc))
                ctx.check(a.ghost == 0, "image-shown", lambda: "%s: atom %d" % (what, i))
            it = [a.id for a in s.iter_atoms()]
            ctx.check(it == cfg.ids, "wrong-iteration", lambda: "%s: iter_atoms gives ids %s" % (what, it[:5]))
            one = s.get_atom(cfg.n - 1)
            ctx.check(one.id == cfg.ids[-1] and np.array_equal(one.pos, cfg.pos[-1]), "wrong-atom", lambda: "%s: last atom" % what)
        self.images_ok(what)

    def images_ok(self, what):
        """what is stored beyond the configuration are its periodic images, each once"""
        ctx, s, cfg = self.ctx, self.s, self.cfg
        with ctx.judging():
            m = self.images()
            ctx.check(np.prod(m) * cfg.n == s.ntotal and np.all(m % 2 == 1), "wrong-images", lambda: "%s: %d atoms are stored for %d" % (what, s.ntotal, cfg.n))
            ctx.check(m.max() > 1 or cfg.n >= 200 or cfg.n == s.ntotal, "wrong-images", "")
            if m.max() == 1:
                return
            pick = range(cfg.n, s.ntotal)
            if len(pick) > 3000:
                pick = np.random.RandomState(3).choice(pick, 1500, replace=False)
            al = [s.get_atom(int(j)) for j in pick]
            pos = np.array([a.pos for a in al])
            head = np.array([a.head for a in al])
            ctx.check(head.min() >= 0 and head.max() < cfg.n, "wrong-images", lambda: "%s: head %s" % (what, head.max()))
            sh = np.linalg.solve(cfg.box.T, (pos - cfg.pos[head]).T).T
            k = np.round(sh)
            err = np.abs((sh - k) @ cfg.box).max()
            ctx.check(err < 1e-6 * self.spacing() + 1e-9 * np.abs(pos).max(), "wrong-images", lambda: "%s: image is off by %g" % (what, err))
            ctx.check(np.all(np.abs(k).max(axis=0) <= m // 2) and not np.any(np.all(k == 0, axis=1)), "wrong-images", lambda: "%s: images beyond the %s cells" % (what, m))
            ctx.check(len({(h,) + tuple(x) for h, x in zip(head.tolist(), k.tolist())}) == len(al), "wrong-images", lambda: "%s: an image is stored twice" % what)
            bad = [int(j) for j, a in zip(pick, al) if a.type != cfg.types[a.head]]
            ctx.check(not bad, "wrong-images", lambda: "%s: %d images have another type than their atom" % (what, len(bad)))


def run(plan, ctx):
    warnings.simplefilter("ignore")
    if plan["nobox"]:
        return nobox(plan, ctx)
    w = Model(ctx, plan["specs"])
    w.verify("new system")
    for n, op in enumerate(plan["ops"]):
        step(ctx, w, op)
        w.verify("after %s" % op["k"])
        ctx.nontrivial = ctx.nontrivial or n > 0
        ctx.state(op["k"], op.get("a"), bool(op.get("fault")), w.cfg.n < 8, w.cfg.n < 200, w.spec["box"], w.images().tolist())


def step(ctx, w, op):
    from pyscal.catom import Atom
    s, cfg, k = w.s, w.cfg, op["k"]
    r = w.rng(op)
    flt = op.get("fault")
    if k in ("set", "fields"):
        i = int(r.randint(cfg.n))
        p = cfg.pos[i] if r.rand() < .3 else w.inside(cfg.pos[i] + r.normal(0, .2 * w.spacing(), 3))
        t, d = int(1 + r.randint(3)), int(r.randint(1, 10 ** 6))
        cust = {"a": float(r.rand()), "name%d" % r.randint(3): "v%d" % r.randint(9)}
        vals = {f: FIELDS[f](r) for f in r.choice(sorted(FIELDS), 4, replace=False)} if k == "fields" else {}

        def put():
            a = s.get_atom(i)
            a.pos = [float(v) for v in p]
            a.type, a.id = t, d
            a.custom = dict(cust)
            for f, v in vals.items():
                setattr(a, f, v)
            s.set_atom(a)
        ok, v, fired = w.under_fault(flt, put)
        if not ok:
            ctx.check(fired, "unexpected-error", "set_atom: %s" % v)
            ctx.probe("failed_set")
            # the atom is the old one or the new one as a whole
            with ctx.judging():
                a = s.get_atom(i)
                if a.id == d and d != cfg.ids[i]:
                    ctx.fail("failed-call-changed-atom", "%s" % v)
            w.verify("after a failed set_atom")
            ctx.must("set_atom (again)", put)
        cfg.pos[i], cfg.types[i], cfg.ids[i] = p, t, d
        w.custom[i] = cust
        w.touched = True
        with ctx.judging():
            a = s.get_atom(i)
            for f, v in vals.items():
                g = getattr(a, f)
                g = list(g) if isinstance(v, list) else g
                ctx.check(g == v, "wrong-field", lambda: "%s of atom %d is %r instead of %r" % (f, i, g, v))
    elif k == "q":
        i = int(r.randint(cfg.n))
        vals = {int(l): float(r.rand()) for l in r.choice(np.arange(2, 13), 3, replace=False)}

        def put():
            a = s.get_atom(i)
            for l, v in vals.items():
                a.set_q(l, v)
                a.set_q(l, v / 2, averaged=True)
            s.set_atom(a)
        ctx.must("set_q", put)
        with ctx.judging():
            for l, v in vals.items():
                ctx.check(s.get_atom(i).get_q(l) == v and s.get_qvals(l)[i] == v, "wrong-field", "q%d" % l)
                ctx.check(s.get_atom(i).get_q(l, averaged=True) == v / 2 and s.get_qvals(l, averaged=True)[i] == v / 2, "wrong-field", "averaged q%d" % l)
    elif k == "list":
        # the atoms are assigned with changes, in another order
        perm = r.permutation(cfg.n)
        t = [int(1 + r.randint(3)) for _ in range(cfg.n)]

        def put():
            al = s.atoms
            for a, x in zip(al, t):
                a.type = x
                a.custom = {"t": x}
            s.atoms = [al[i] for i in perm]
        ok, v, fired = w.under_fault(flt, put)
        if not ok:
            ctx.check(fired, "unexpected-error", "atoms: %s" % v)
            ctx.probe("failed_assignment")
            w.verify("after atoms could not be assigned")
            ctx.must("assign atoms (again)", put)
        cfg.types = [t[i] for i in perm]
        cfg.pos = cfg.pos[perm]
        cfg.ids = [cfg.ids[i] for i in perm]
        w.custom = [{"t": x} for x in cfg.types]
    elif k == "getcopy":
        # what is handed out belongs to the caller
        def go():
            for a in (s.get_atom(0), s.atoms[-1], next(s.iter_atoms())):
                a.pos = [1e3, -1e3, 7.]
                a.type = 77
                a.id = -5
                a.custom = {"gone": 1}
                a.neighbors = [0]
            box = s.box
            return box
        ctx.must("modify copies", go)
    elif k == "alias":
        # what was handed in belongs to the caller
        al = cfg.atoms()
        lst = list(al)
        box = cfg.box.tolist() if r.rand() < .5 else cfg.box.copy()
        keep = cfg.box.copy()

        def put():
            s.box = box
            s.atoms = lst
            for a in al:
                a.pos = [5e3, 5e3, 5e3]
                a.type = 9
                a.id = -1
                a.custom = {"foreign": 1}
            del lst[:]
        ctx.must("assign, then modify the own atoms", put)
        cfg.box = keep
        w.custom = [{} for _ in range(cfg.n)]
    elif k == "assign":
        new = G.make(w.specs[op["spec"] % len(w.specs)])
        atoms = new.atoms()
        cust = [{"k": int(v)} for v in r.randint(0, 99, new.n)]
        for a, c in zip(atoms, cust):
            a.custom = dict(c)
        ctx.must("assign box", lambda: setattr(s, "box", new.box.tolist()))
        cfg.box = new.box.copy()
        w.touched = True
        w.check_config("after the box was assigned")
        ok, v, fired = w.under_fault(flt, lambda: setattr(s, "atoms", atoms))
        if not ok:
            ctx.check(fired, "unexpected-error", "atoms: %s" % v)
            ctx.probe("failed_assignment")
            w.verify("after atoms could not be assigned")
            ctx.must("assign atoms (again)", lambda: setattr(s, "atoms", atoms))
        w.cfg, w.custom, w.spec, w.touched = new, cust, w.specs[op["spec"] % len(w.specs)], False
    elif k == "add":
        new = []
        for _ in range(1 + r.randint(4)):
            p = r.rand(3) @ cfg.box
            new.append(dict(pos=[float(v) for v in p], id=int(r.randint(10 ** 6)), type=int(1 + r.randint(3))))
        cust = [{"new": j} for j in range(len(new))]

        def put():
            al = [Atom(**x) for x in new]
            for a, c in zip(al, cust):
                a.custom = dict(c)
            s.add_atoms(al)
        ok, v, fired = w.under_fault(flt, put)
        if not ok:
            ctx.check(fired, "unexpected-error", "add_atoms: %s" % v)
            ctx.probe("failed_add")
            w.verify("after atoms could not be added")
            ctx.must("add_atoms (again)", put)
        cfg.pos = np.vstack([cfg.pos, [x["pos"] for x in new]])
        cfg.ids += [x["id"] for x in new]
        cfg.types += [x["type"] for x in new]
        cfg.n += len(new)
        w.custom += cust
        w.touched = True
    elif k == "wrongadd":
        # what cannot be atoms is refused and changes nothing
        for bad in ([1, 2], [None], "atoms", [[0, 0, 0]]):
            ok, v = ctx.call(lambda: s.add_atoms(bad))
            ctx.check(not ok, "wrong-atoms-accepted", repr(bad))
            ok, v = ctx.call(lambda: setattr(s, "atoms", bad))
            ctx.check(not ok, "wrong-atoms-accepted", repr(bad))
        for bad in ([[1, 0, 0], [0, 1, 0]], [1, 2, 3], "box"):
            old = np.array(cfg.box)
            ok, v = ctx.call(lambda: setattr(s, "box", bad))
            if ok:
                ctx.probe("wrong_box_accepted")
            ctx.must("assign box", lambda: setattr(s, "box", old.tolist()))
            ctx.must("assign atoms", lambda: setattr(s, "atoms", restored(w)))
    elif k == "box":
        f = r.uniform(.9, 1.2, 3)
        box = cfg.box * f[:, None]
        if r.rand() < .3:
            box[2] += .2 * box[0]
        ok, v, fired = w.under_fault(flt, lambda: setattr(s, "box", box.tolist()))
        if not ok:
            ctx.check(fired, "unexpected-error", "box: %s" % v)
            # old or new cell, the atoms stay
            with ctx.judging():
                got = np.array(s.box, float)
                ctx.check(np.allclose(got, box, rtol=1e-13) or np.allclose(got, cfg.box, rtol=1e-13), "wrong-configuration", "box %s" % got.tolist())
                at = s.atoms
                ctx.check(np.array_equal([a.pos for a in at], cfg.pos) and [a.id for a in at] == cfg.ids, "wrong-configuration", "atoms after a failed box assignment")
            ctx.must("assign box (again)", lambda: setattr(s, "box", box.tolist()))
        cfg.box = box
        w.touched = True
    elif k == "repeat":
        reps = [(1, 0, 0), (0, 1, 0), (1, 1, 1), (2, 0, 1), (1, 0, 1)][r.randint(5)]
        mult = np.prod([2 * x + 1 for x in reps])
        if mult * cfg.n > 1200:
            return
        scale = r.rand() < .8

        def go():
            out = s.repeat(reps, scale_box=scale)
            if scale:
                s.atoms = out
            return out
        out = ctx.must("repeat", go)
        with ctx.judging():
            sh = np.array([[i, j, l] for i in range(-reps[0], reps[0] + 1) for j in range(-reps[1], reps[1] + 1) for l in range(-reps[2], reps[2] + 1)])
            sh = np.array([x for x in sh.tolist() if x == [0, 0, 0]] + [x for x in sh.tolist() if x != [0, 0, 0]])
            pos = (cfg.pos[None] + (sh @ cfg.box)[:, None]).reshape(-1, 3)
            types = list(cfg.types) * len(sh)
            ctx.check(len(out) == len(pos), "wrong-replication", "%d atoms instead of %d" % (len(out), len(pos)))
            got = np.array([a.pos for a in out])
            ctx.check(np.array_equal(got[:cfg.n], cfg.pos), "wrong-replication", "first atoms")
            from scipy.spatial import cKDTree
            d, j = cKDTree(pos).query(got)
            ctx.check(d.max() < 1e-7 * w.spacing() + 1e-9 * np.abs(pos).max() and len(set(j.tolist())) == len(j), "wrong-replication", "positions, off by %g" % d.max())
            ctx.check([a.type for a in out] == [types[x] for x in j], "wrong-replication", "types")
            if scale:
                cfg.ids = [a.id for a in out]
                cfg.types = [a.type for a in out]
                cfg.pos = got
                cfg.box = cfg.box * (2 * np.array(reps) + 1)[:, None]
                cfg.n = len(got)
                w.custom = w.custom + [{} for _ in range(cfg.n - len(w.custom))]
                w.touched = True
    elif k == "remap":
        if w.spec["box"] != "orth" or not np.allclose(cfg.box, np.diag(np.diag(cfg.box))) or cfg.n > 220:
            return
        L = np.diag(cfg.box)
        if r.rand() < .6:
            # periodic images of some of the atoms are in the list, too
            sel = [int(i) for i in r.choice(cfg.n, min(cfg.n, 1 + r.randint(4)), replace=False)]
            new = [(cfg.pos[i] % L + L * np.array([(1, 0, 0), (0, -1, 0), (0, 1, 1), (0, 0, 0)][r.randint(4)]) + r.uniform(-2e-4, 2e-4, 3) * w.spacing(), cfg.types[i]) for i in sel]
            ids = [int(v) for v in r.randint(10 ** 6, size=len(sel))]
            ctx.must("add images", lambda: s.add_atoms([Atom(pos=[float(v) for v in p], id=i, type=t) for (p, t), i in zip(new, ids)]))
            cfg.pos = np.vstack([cfg.pos] + [p for p, _ in new])
            cfg.ids, cfg.types = cfg.ids + ids, cfg.types + [t for _, t in new]
            cfg.n += len(sel)
            w.custom += [{} for _ in sel]
            w.touched = True
            ctx.probe("images_in_list", len(sel))
        # some atoms leave the box on one side; if those that stay outside are removed, also by far
        far = r.rand() < .35
        for i in r.choice(cfg.n, min(cfg.n, 3), replace=False):
            sh = r.randint(-1, 2, 3)
            if far and r.rand() < .6:
                sh = np.array([(2, 0, 0), (0, -2, 0), (0, 3, 1), (0, 0, 2), (-3, 0, 0), (0, 2, 0)][r.randint(6)])
            p = cfg.pos[i] % L + sh * L * (far or r.rand() < .7)
            def put():
                a = s.get_atom(int(i))
                a.pos = [float(v) for v in p]
                s.set_atom(a)
            ctx.must("set_atom", put)
            cfg.pos[i] = p
        new = cfg.pos.copy()
        new[new < 0] += np.broadcast_to(L, new.shape)[new < 0]
        hi = cfg.pos >= np.broadcast_to(L, new.shape)
        new[hi] -= np.broadcast_to(L, new.shape)[hi]
        imgs = r.rand() < .5
        inside = np.arange(cfg.n)

        def back():
            if far:
                for i in np.where(np.any((cfg.pos < -L) | (cfg.pos >= 2 * L), axis=1))[0]:
                    a = s.get_atom(int(i))
                    a.pos = [float(v) for v in cfg.pos[i] % L]
                    s.set_atom(a)
                    cfg.pos[i] %= L
        if far:
            inside = np.where(np.all((new >= 0) & (new < L), axis=1))[0]
            if len(inside) == 0 or np.any((np.abs(new) < 1e-9 * L) | (np.abs(new - L) < 1e-9 * L)):
                back()
                return
        dt = 1e-3 * w.spacing()
        d = G.min_image(cfg.box, (new[:, None] - new[None]).reshape(-1, 3))[1].reshape(cfg.n, cfg.n) + np.eye(cfg.n) * 1e9
        if imgs and np.any(np.abs(d - dt) < 1e-6 * dt):
            back()
            return
        keep = [int(i) for i in inside if not (imgs and np.any(d[i, inside[inside > i]] <= dt))]
        kw = dict(remove_atoms=True) if far else {}
        if r.rand() < .3:
            out = ctx.must("remap_atoms", lambda: s.remap_atoms(remove_images=imgs, assign=False, dtol=dt, **kw))
            with ctx.judging():
                ctx.check(np.allclose([a.pos for a in out], new[keep], atol=1e-12 * np.abs(L).max()) and [a.id for a in out] == [cfg.ids[i] for i in keep],
                          "wrong-remapping", "returned atoms")
            back()
            return
        ctx.must("remap_atoms", lambda: s.remap_atoms(remove_images=imgs, dtol=dt, **kw))
        with ctx.judging():
            ctx.check(s.natoms == len(keep), "wrong-remapping", lambda: "%d atoms instead of %d" % (s.natoms, len(keep)))
            got = np.array([a.pos for a in s.atoms])
            ctx.check(np.allclose(got, new[keep], rtol=0, atol=1e-12 * np.abs(L).max()), "wrong-remapping", "positions")
        cfg.pos = got
        cfg.ids = [cfg.ids[i] for i in keep]
        cfg.types = [cfg.types[i] for i in keep]
        w.custom = [w.custom[i] for i in keep]
        cfg.n = len(keep)
        w.touched = True
    elif k == "cubic":
        cubic(ctx, r)
    else:
        w.history(op)
        return
    ctx.event(k, cfg.n)


PRIMITIVE = dict(fcc=([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]], [[0, 0, 0]]), bcc=([[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]], [[0, 0, 0]]),
                 dia=([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]], [[0, 0, 0], [.25, .25, .25]]), l12=([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 0, 0], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]]),
                 bct=([[-.5, .5, .7], [.5, -.5, .7], [.5, .5, -.7]], [[0, 0, 0]]), nacl=([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]], [[0, 0, 0], [.5, .5, .5]]))


def cubic(ctx, r):
    """the rectangular cell that is cut out of a crystal is a cell of the same crystal"""
    import pyscal.core as pc
    from pyscal.catom import Atom
    name = sorted(PRIMITIVE)[r.randint(len(PRIMITIVE))]
    box, basis = [np.array(x, float) * 1. for x in PRIMITIVE[name]]
    a = r.uniform(2, 7)
    box, sites = box * a, np.array(basis) * a + (r.uniform(0, 1, 3) * a if r.rand() < .7 else 0)
    types = [1 + (j % (2 if name != "l12" else 4)) for j in range(len(sites))] if r.rand() < .5 or name in ("nacl", "l12") else [1] * len(sites)
    s = ctx.must("System", pc.System)

    def put():
        s.box = box.tolist()
        s.atoms = [Atom(pos=[float(v) for v in p], id=j + 1, type=t) for j, (p, t) in enumerate(zip(sites, types))]
    ctx.must("assign", put)
    rep = [(3, 3, 3), (3, 3, 3), (4, 3, 3)][r.randint(3)]
    before = W.show_system(s, 30)
    cell, atoms = ctx.must("extract_cubic_box", lambda: s.extract_cubic_box(repeat=rep))
    with ctx.judging():
        ctx.check(not W.differs(before, W.show_system(s, 30)), "extraction-changed-system", lambda: "%s" % W.differs(before, W.show_system(s, 30)))
        cell = np.array(cell, float)
        tol = 1e-7 * a
        k = np.linalg.solve(box.T, cell.T).T
        ctx.check(np.allclose(cell, np.diag(np.diag(cell))) and np.abs(k - np.round(k)).max() < 1e-7 and cell.min() >= 0, "wrong-cubic-cell", lambda: "%s %s" % (name, cell.tolist()))
        want = len(sites) * abs(np.linalg.det(cell) / np.linalg.det(box))
        ctx.check(abs(want - len(atoms)) < 1e-6, "wrong-cubic-cell", lambda: "%s: %d atoms instead of %g" % (name, len(atoms), want))
        pos = np.array([x.pos for x in atoms])
        ctx.check(pos.min() > -2e-5 and np.all(pos.max(axis=0) < np.diag(cell)), "wrong-cubic-cell", lambda: "%s: atoms outside" % name)
        # each is a site of the crystal (seen from the first site), of the same type, and none is there twice
        for p, x in zip(pos, atoms):
            ok = [j for j, q in enumerate(sites) if G.min_image(box, p - (q - sites[0]))[1][0] < tol]
            ctx.check(len(ok) == 1 and types[ok[0]] == x.type, "wrong-cubic-cell", lambda: "%s: atom at %s" % (name, p))
        d = G.min_image(cell, (pos[:, None] - pos[None]).reshape(-1, 3))[1].reshape(len(pos), -1) + np.eye(len(pos)) * 1e9
        ctx.check(d.min() > .1 * a, "wrong-cubic-cell", lambda: "%s: an atom is there twice" % name)
    ctx.probe("cubic_cells")
    ctx.state("cubic", name, rep, len(set(types)))


def restored(w):
    al = w.cfg.atoms()
    for a, c in zip(al, w.custom):
        a.custom = dict(c)
    return al


def nobox(plan, ctx):
    """atoms can be collected before there is a cell"""
    import pyscal.core as pc
    from pyscal.catom import Atom
    s = ctx.must("System", pc.System)
    model = []
    n = 0
    for op in plan["ops"]:
        r = np.random.RandomState(op["seed"])
        new = []
        for _ in range(1 + r.randint(5)):
            n += 1
            new.append((n, [float(v) for v in r.rand(3)], int(1 + r.randint(3))))
        flt = op.get("fault") or (W.gen_fault(__import__("random").Random(op["seed"]), .5, kinds=("alloc",)))

        def put():
            s.add_atoms([Atom(pos=p, id=i, type=t) for i, p, t in new])
        if flt and flt["op"] == "alloc":
            ctx.alloc.arm("csystem", flt["at"] % 12, persist=1 if flt.get("persist") else 0)
        ok, v = ctx.call(put)
        k = ctx.alloc.disarm()
        if k:
            ctx.fault_fired("allocation", k)
        if not ok:
            ctx.check(k > 0, "unexpected-error", "add_atoms: %r" % (v,))
            v = None
            same(ctx, s, model, "after atoms could not be added")
            ctx.must("add_atoms (again)", put)
        model += new
        same(ctx, s, model, "after add_atoms")
        ctx.nontrivial = True
        ctx.state("nobox", len(model), ok)
    box = [[1., 0, 0], [0, 1., 0], [0, 0, 1.]]

    def last():
        s.box = box
        s.atoms = s.atoms
    ctx.must("assign box and atoms", last)
    same(ctx, s, model, "after the box was assigned")


def same(ctx, s, model, what):
    with ctx.judging():
        got = [(a.id, list(a.pos), a.type) for a in s.atoms]
        ctx.check(got == [(i, p, t) for i, p, t in model] and s.natoms == len(model), "wrong-configuration",
                  lambda: "%s: %d atoms (natoms %d) instead of %d: ids %s" % (what, len(got), s.natoms, len(model), [g[0] for g in got][:12]))


def shrink(plan):
    yield from W.shrink_world(plan)
