"""Crystals made, and objects and sites examined, are those of the structure"""
import contextlib, io, os, re, warnings
import numpy as np
from sim import sysgen as G, world as W, dump as D, rt
from sim.iokit import gen_read_fault
try:
    import mdtraj
except ImportError:
    mdtraj = None

ID = "C22"
QUICK, THOROUGH, TIMEOUT = 500, 30000, 180
RULE = ("a run = crystals made (every structure, lattice constant, repetition, c/a and noise) with failures in between, ASE and MDTraj objects taken over, and files examined for "
        "tetrahedral sites and environments under read faults, in a seeded order; lattices are compared site by site with their definition, objects value by value, sites and "
        "environments with the periodic configuration in the file; non-trivial = something was judged")
REAL = ["pyscal crystal_structures, misc, traj_process, formats/ase, formats/mdtraj, core", "pyscal's C++ extension modules", "ase", "mdtraj"]

BASES = dict(
    sc=([[0, 0, 0]], [1], (1, 1, 1)),
    bcc=([[0, 0, 0], [.5, .5, .5]], [1, 1], (1, 1, 1)),
    b2=([[0, 0, 0], [.5, .5, .5]], [1, 2], (1, 1, 1)),
    fcc=(G.BASIS["fcc"], [1] * 4, (1, 1, 1)),
    l12=(G.BASIS["fcc"], [1, 2, 2, 2], (1, 1, 1)),
    diamond=(G.BASIS["diamond"], [1] * 8, (1, 1, 1)),
    a15=(G.MORE["a15"], [1] * 8, (1, 1, 1)),
    hcp=(G.BASIS["hcp"], [1] * 4, (1, 3 ** .5, None)),
)


def gen(rng, tier):
    ops = []
    kinds = rng.sample(["crystal", "crystal", "ase", "mdtraj", "voids", "env"], rng.choice([1, 2, 3]))
    for _ in range(rng.choice([1, 2, 3, 5])):
        k = rng.choice(kinds)
        op = dict(k=k, seed=rng.getrandbits(24))
        if k == "crystal":
            op.update(name=rng.choice(sorted(BASES) + ["nothing"]), a=rng.choice([1.0, 3.615, 2.87, .004, 170.0, rng.uniform(.5, 9)]),
                      reps=rng.choice([None, [1, 1, 1], [rng.randint(1, 5) for _ in range(3)], [rng.randint(1, 3) for _ in range(3)], [2, 3, rng.randint(1, 9)]]),
                      ca=rng.choice([None, None, 1.633, 1.58, 1.86, 2.0]), noise=rng.choice([0, 0, .001, .01, .015]),
                      fault=rng.choice([None, None, None, dict(op="interrupt", at=1 + int(rng.expovariate(1 / 200.)))]), const=rng.choice(["kw", "kw", "array", "tuple"]))
        elif k in ("ase", "mdtraj"):
            op.update(spec=G.gen_spec(rng, sizes=("tiny", "small")))
            op["spec"]["scale"] = rng.choice([1.0, 3.2, 12.0])
            op["fault"] = rng.choice([None, None, dict(op="interrupt", at=1 + int(rng.expovariate(1 / 60.)))])
            op["via"] = rng.choice(["system", "system", "read_file"])
        else:
            sp = G.gen_spec(rng, sizes=("tiny", "small", "small"), ntypes=(1, 2))
            sp["scale"] = rng.choice([1.0, 3.2])
            sp["noise"] = rng.choice([.02, .05, .1])
            op.update(spec=sp, direct=rng.random() < .6, show=rng.random() < .3, system=rng.random() < .3, precision=rng.choice([.1, .1, .3, .05]) if k == "voids" else rng.choice([2, 1, 3, 0]),
                      type=rng.choice([1, 2]), insert=rng.choice([0, 1, 1, 2]) if k == "voids" else 0,
                      fault=gen_read_fault(rng, .3))
        ops.append(op)
    return dict(ops=ops, trace=False, read_chunk=rng.choice([0, 0, 64, 500]))


def attempt(ctx, op, what, fn):
    flt = op.get("fault")
    if flt:
        if flt["op"] == "interrupt":
            ctx.interrupt_after(flt["at"])
        else:
            ctx.fs.arm([flt])
        try:
            ok, v = ctx.call(fn)
        finally:
            fired = ctx.interrupt_off() if flt["op"] == "interrupt" else bool(ctx.fs.disarm())
        if ok:
            return v
        ctx.check(fired, "unexpected-error", lambda: "%s raised %s: %s" % (what, type(v).__name__, str(v)[:200]))
    return ctx.must(what, fn)


# ---------------------------------------------------------------------------
def crystal(ctx, op):
    import pyscal.crystal_structures as pcs
    a, reps = op["a"], op["reps"]
    kw = dict(lattice_constant=a)
    if reps is not None:
        kw["repetitions"] = dict(kw=reps, array=list(np.array(reps)), tuple=tuple(reps))[op["const"]]
    if op["ca"] is not None:
        kw["ca_ratio"] = op["ca"]
    if op["noise"]:
        kw["noise"] = op["noise"] * a
    if op["name"] == "nothing":
        ok, v = ctx.call(pcs.make_crystal, "nothing", **kw)
        ctx.check(not ok and isinstance(v, ValueError), "accepted", "a crystal of an unknown structure was made")
        return 1
    np.random.seed(op["seed"])
    atoms, box = attempt(ctx, op, "make_crystal", lambda: pcs.make_crystal(op["name"], **kw))
    basis, types, cell = BASES[op["name"]]
    basis, nb = np.array(basis, float), len(basis)
    reps = np.array(reps or [1, 1, 1])
    lens = a * np.array([c if c is not None else (op["ca"] or 1.633) for c in cell])
    what = "%s %s a=%g" % (op["name"], reps.tolist(), a)
    ctx.check(np.allclose(np.array(box, float), np.diag(lens * reps), rtol=1e-9, atol=1e-12 * a), "box", lambda: "%s: box %s" % (what, box))
    n = nb * int(np.prod(reps))
    ctx.check(len(atoms) == n, "atoms", "%s: %d atoms instead of %d" % (what, len(atoms), n))
    ctx.check(sorted(x.id for x in atoms) == list(range(1, n + 1)), "ids", "%s: ids are not 1 to %d" % (what, n))
    ctx.check([x.loc for x in atoms] == list(range(n)), "ids", "%s: loc" % what)
    pos = np.array([x.pos for x in atoms], float)
    ty = np.array([x.type for x in atoms])
    tol = 7 * op["noise"] or 1e-9
    best = None
    u = pos / lens                    # in units of the cell
    # any atom of the definition may be at the origin, and the definition may be mirrored in any direction
    for mirror in ((1, 1, 1), (-1, -1, -1), (1, -1, 1), (1, 1, -1), (-1, 1, 1)):
        for b in range(nb):
            for origin in (range(1) if not op["noise"] else (None,)):
                if origin is None:
                    # the noisy first atom says little: the made crystals have an atom at the origin
                    sites, first = (basis - basis[b]) * mirror % 1, 0
                else:
                    sites, first = (basis - basis[b]) * mirror % 1, u[0]
                if origin is not None and types[b] != ty[0]:
                    continue
                d = (u - first)[:, None, :] - sites[None]
                d -= np.round(d)
                e = np.abs(d * lens / a).max(axis=2)
                j = e.argmin(axis=1)
                if e[np.arange(n), j].max() > tol or not np.array_equal(np.array(types)[j], ty):
                    continue
                site = np.round(u - first - sites[j]).astype(int) % reps
                key = {(int(q), *map(int, s)) for q, s in zip(j, site)}
                if len(key) == n:
                    best = d[np.arange(n), j] * lens
                    break
            if best is not None:
                break
        if best is not None:
            break
    ctx.check(best is not None, "lattice", "%s, noise %g: the atoms are not on the sites of the lattice, each one once, with its type" % (what, op["noise"]))
    if not op["noise"]:
        ctx.check((u > -1e-9).all() and (u < reps + 1e-9).all(), "lattice", "%s: atoms outside of the box" % what)
    elif n >= 8:
        sd = op["noise"] * a
        ctx.check(abs(best.mean(axis=0)).max() < 7 * sd / n ** .5, "noise", "%s: mean displacement %s with noise %g" % (what, best.mean(axis=0).tolist(), sd))
        s = best.std(axis=0) / sd
        w = 7 / (2 * n) ** .5
        ctx.check((s < 1 + w).all() and (s > max(1 - w, .05)).all(), "noise", "%s: displacements of %s times the noise" % (what, s.tolist()))
        c = np.corrcoef(best.T)[np.triu_indices(3, 1)]
        ctx.check(n < 60 or (np.abs(c) < 7 / n ** .5).all(), "noise", "%s: the coordinates are displaced together: %s" % (what, c.tolist()))
    if op["noise"] and not op["fault"]:
        # the state of the random numbers is all it depends on
        np.random.seed(op["seed"])
        again, _ = ctx.must("make_crystal", pcs.make_crystal, op["name"], **kw)
        other, _ = ctx.must("make_crystal", pcs.make_crystal, op["name"], **kw)
        ctx.check([x.pos for x in again] == [x.pos for x in atoms], "random", "%s: other positions from the same random numbers" % what)
        ctx.check([x.pos for x in other] != [x.pos for x in atoms], "random", "%s: the same noise twice" % what)
    return n


# ---------------------------------------------------------------------------
def taken(ctx, op):
    """an object of ASE or MDTraj is read"""
    from pyscal.core import System
    import pyscal.traj_process as ptp
    cfg = G.make(op["spec"])
    r = np.random.RandomState(op["seed"])
    syms = ["Cu", "Al", "H", "Zr"]
    r.shuffle(syms)
    names = [syms[t - 1] for t in cfg.types]
    if op["k"] == "ase":
        from ase import Atoms
        obj = Atoms(names, positions=cfg.pos, cell=cfg.box, pbc=True)
        pos, box, tol = cfg.pos, cfg.box, 1e-12
    else:
        if mdtraj is None:
            return 0
        if op["spec"]["box"] == "rot" or op["spec"].get("left"):
            return 0            # (MDTraj keeps lengths and angles only)
        top = mdtraj.Topology()
        ch = top.add_chain()
        res = top.add_residue("X", ch)
        for nme in names:
            top.add_atom(nme, mdtraj.element.get_by_symbol(nme), res)
        l = np.linalg.norm(cfg.box, axis=1)
        ang = [np.degrees(np.arccos(np.dot(cfg.box[i], cfg.box[j]) / l[i] / l[j])) for i, j in ((1, 2), (0, 2), (0, 1))]
        # the first frame of several, in which positions and cells are others, is taken
        m = [1, 1, 2, 3][op["seed"] % 4]
        more = np.concatenate([cfg.pos[None]] + [(cfg.pos * (1 + .1 * j) + .2 * j)[None] for j in range(1, m)])
        obj = mdtraj.Trajectory(more.astype(np.float32), top, unitcell_lengths=np.array([l * (1 + .1 * j) for j in range(m)]), unitcell_angles=np.array([ang] * m))
        pos, box, tol = cfg.pos, cfg.box, 3e-6 * max(1, np.abs(cfg.box).max())
    before = (obj.positions.copy(), obj.cell.array.copy()) if op["k"] == "ase" else (obj.xyz.copy(), obj.unitcell_vectors.copy())
    if op["via"] == "system":
        s = System()
        attempt(ctx, op, "read_inputfile", lambda: s.read_inputfile(obj, format=op["k"]))
        atoms, b = s.atoms, s.box
    else:
        atoms, b = attempt(ctx, op, "read_file", lambda: ptp.read_file(obj, format=op["k"]))
    after = (obj.positions, obj.cell.array) if op["k"] == "ase" else (obj.xyz, obj.unitcell_vectors)
    ctx.check(all(np.array_equal(x, y) for x, y in zip(before, after)), "object-changed", "reading changed the object")
    ctx.check(len(atoms) == cfg.n, "atoms", "%d atoms of an object with %d" % (len(atoms), cfg.n))
    got = np.array([a.pos for a in atoms])
    ctx.check(np.abs(got - pos).max() <= tol, "positions", lambda: "%s object: position %s instead of %s" % (op["k"], got[0], pos[0]))
    ctx.check(np.abs(np.array(b, float) - box).max() <= tol * 3, "box", lambda: "%s object: box %s instead of %s" % (op["k"], np.array(b).tolist(), box.tolist()))
    ctx.check([a.id for a in atoms] == list(range(1, cfg.n + 1)), "ids", "ids are not 1 to %d" % cfg.n)
    ctx.check([a.custom.get("species") for a in atoms] == names, "species", "other species")
    kinds = sorted(set(names))
    ctx.check([a.type for a in atoms] == [kinds.index(x) + 1 for x in names], "types", "%s object: types do not number the species in alphabetical order" % op["k"])
    return cfg.n


# ---------------------------------------------------------------------------
class Quiet:
    def __enter__(self):
        self.out = io.StringIO()
        self.c = contextlib.redirect_stdout(self.out)
        self.c.__enter__()
        return self.out

    def __exit__(self, *a):
        self.c.__exit__(*a)


def examined(ctx, op):
    import pyscal.misc as pm
    from pyscal.core import System
    from ase import Atoms
    from ase.io import write
    cfg = G.make(op["spec"])
    r = np.random.RandomState(op["seed"])
    pos, types = cfg.pos, list(cfg.types)
    for _ in range(op["insert"]):
        # an atom in the middle of four others
        im = G.Images(cfg, 3 * (cfg.volume() / cfg.n) ** (1 / 3.))
        i = int(r.randint(cfg.n))
        idx, d, _ = im.around(i, 1.8 * (cfg.volume() / cfg.n) ** (1 / 3.))
        if len(d) >= 3:
            p = cfg.pos[i] + np.vstack([[0, 0, 0], d[:3]]).mean(axis=0)
            if G.min_image(cfg.box, pos - p)[1].min() < .3 * (cfg.volume() / cfg.n) ** (1 / 3.):
                continue
            pos = np.vstack([pos, p])
            types.append(2)
    o = np.argsort(types, kind="stable")
    pos, types = pos[o], np.array(types)[o]
    syms = [["Al", "Cu"][t - 1] for t in types]
    with ctx.judging():
        write("POSCAR_x", Atoms(syms, positions=pos, cell=cfg.box, pbc=True), format="vasp", direct=True)
        # what is in the file, by the parts that other checks judge
        ref = System()
        ref.read_inputfile("POSCAR_x", format="poscar")
        ref.find_neighbors(method="voronoi")
        ref.calculate_vorovector()
        atoms = ref.atoms
        want_n = len(pos)
        if len(atoms) != want_n:
            ctx.fail("atoms", "%d atoms of a file with %d" % (len(atoms), want_n))
    kw = dict(format="poscar", print_results=op["show"], return_system=op["system"], precision=op["precision"])
    tpe = {t: k + 1 for k, t in enumerate(sorted(set(types)))}
    ctx.check([a.type for a in atoms] == [tpe[t] for t in types], "types", "types of the file")
    if op["k"] == "voids":
        sure, sites = True, []
        p = op["precision"]
        for a in atoms:
            if a.vorovector[1] != 4:
                continue
            v = np.array([ref.get_atom(int(j)).pos for j in a.neighbors]) - a.pos
            d = np.array(a.neighbor_distance)
            im = np.linalg.norm(np.array(a.neighbor_vector), axis=1)
            ctx.check(np.allclose(d, im, rtol=1e-6), "distance", "distances of neighbors")
            m = d.min()
            k = ((d >= m * (1 - p)) & (d <= m * (1 + p))).sum()
            if (np.abs(d / m - 1 - p) < 1e-6).any():
                sure = False
            if k == 4:
                sites.append((a.type, a.volume, a.pos))
        out = io.StringIO()

        def fn():
            out.seek(0), out.truncate()
            with contextlib.redirect_stdout(out):
                return pm.find_tetrahedral_voids("POSCAR_x", direct_coordinates=op["direct"], **kw)
        v = attempt(ctx, op, "find_tetrahedral_voids", fn)
        if op["system"]:
            ctx.check(len(v) == 4 and v[3].natoms == want_n, "system", "the System is not returned")
        else:
            ctx.check(len(v) == 3, "values", "%d values" % len(v))
        if not sure:
            return 0
        t, vol, ps = v[:3]
        ctx.check(list(t) == [x[0] for x in sites], "sites", "types of the sites: %s instead of %s" % (list(t), [x[0] for x in sites]))
        ctx.check(len(vol) == len(sites) and np.allclose(vol, [x[1] for x in sites], rtol=1e-9), "sites", "volumes of the sites")
        want = np.array([x[2] for x in sites]).reshape(-1, 3)
        got = np.array(ps, float).reshape(-1, 3)
        if op["direct"]:
            got = got @ cfg.box
        ctx.check(got.shape == want.shape and (not len(want) or np.abs(got - want).max() < 1e-6 * np.abs(cfg.box).max()), "sites", lambda: "sites at %s instead of %s" % (got.tolist(), want.tolist()))
        text = out.getvalue()
        if op["show"]:
            ctx.check(len(re.findall(r"volume", text)) == len(sites), "printed", "%d sites printed instead of %d" % (len(re.findall("volume", text)), len(sites)))
            ctx.check(bool(sites) or "no atoms" in text, "printed", "nothing printed")
        else:
            ctx.check(text == "", "printed", "printed although it should not be")
        ctx.probe("sites", len(sites))
        return want_n
    # environments
    mine = [a for a in atoms if a.type == op["type"]]
    vol = np.array([a.volume for a in mine])
    scaled = vol * 10 ** op["precision"]
    sure = (np.abs(scaled - np.floor(scaled) - .5) > 1e-5).all() if len(vol) else True
    out = io.StringIO()

    def fn():
        out.seek(0), out.truncate()
        with contextlib.redirect_stdout(out):
            return pm.compare_atomic_env("POSCAR_x", atomtype=op["type"], **kw)
    v = attempt(ctx, op, "compare_atomic_env", fn)
    if not sure or not len(mine):
        return 0
    rounded = np.round(vol, op["precision"])
    want_v, want_c = np.unique(rounded, return_counts=True)
    poly = [" ".join(str(int(x)) for x in a.vorovector) for a in mine]
    if op["show"]:
        text = out.getvalue()
        rows = re.findall(r"<([^>]*)>, vol = ([-\d.]+), counts = (\d+)", text)
        ctx.check(len(rows) == len(want_v), "printed", "%d environments printed instead of %d" % (len(rows), len(want_v)))
        ctx.check([int(x[2]) for x in rows] == want_c.tolist() and np.allclose([float(x[1]) for x in rows], want_v, atol=6e-4), "printed",
                  lambda: "printed %s instead of %s %s" % (rows[:4], want_v[:4], want_c[:4]))
        clear = len({(x, y) for x, y in zip(rounded, poly)}) == len(want_v)
        for (f, _, _), x in zip(rows, want_v):
            ok = {q for q, y in zip(poly, rounded) if y == x}
            ctx.check((f in ok) if clear else f == "x x x x", "printed", "polyhedron %s printed for volume %g, which belongs to %s" % (f, x, sorted(ok)))
        if op["system"]:
            ctx.check(getattr(v, "natoms", None) == want_n, "system", "the System is not returned")
        else:
            ctx.check(v is None, "values", "a value is returned")
    else:
        ctx.check(out.getvalue() == "", "printed", "printed although it should not be")
        if op["system"]:
            v, s = v
            ctx.check(s.natoms == want_n, "system", "the System is not returned")
        gv, gp, gc = v
        ctx.check(np.allclose(np.array(gv, float), want_v, rtol=1e-12) if len(gv) == len(want_v) else False, "volumes", lambda: "volumes %s instead of %s" % (list(gv)[:5], want_v[:5]))
        ctx.check(sorted(map(str, gp)) == sorted(set(poly)), "polyhedra", lambda: "polyhedra %s instead of %s" % (list(gp)[:5], sorted(set(poly))[:5]))
        ctx.check([int(x) for x in gc] == want_c.tolist(), "counts", "counts %s instead of %s" % (list(gc)[:5], want_c[:5]))
    ctx.probe("environments", len(want_v))
    return want_n


def run(plan, ctx):
    warnings.simplefilter("ignore")
    judged = 0
    for op in plan["ops"]:
        n = (crystal if op["k"] == "crystal" else taken if op["k"] in ("ase", "mdtraj") else examined)(ctx, op)
        judged += bool(n)
        ctx.state(op["k"], op.get("name"), bool(op.get("noise")), bool(op.get("fault")), (op.get("spec") or {}).get("box"), bool(n))
        ctx.event(op["k"], n)
        if os.path.exists("POSCAR_x"):
            os.unlink("POSCAR_x")
    ctx.nontrivial = judged > 0


def shrink(plan):
    for i, op in enumerate(plan["ops"]):
        if len(plan["ops"]) > 1:
            yield dict(plan, ops=plan["ops"][:i] + plan["ops"][i + 1:])
        if op.get("fault"):
            yield dict(plan, ops=plan["ops"][:i] + [dict(op, fault=None)] + plan["ops"][i + 1:])
        if op.get("spec"):
            for s in G.shrink_spec(op["spec"]):
                yield dict(plan, ops=plan["ops"][:i] + [dict(op, spec=s)] + plan["ops"][i + 1:])
