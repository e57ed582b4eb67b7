"""Snapshot round trips through files"""
import warnings
import numpy as np
from sim import dump as D, sysgen as G
from sim.iokit import *

ID = "C04"
QUICK, THOROUGH, TIMEOUT = 550, 20000, 120
RULE = ("a run = seeded systems written by 1-3 client threads to files in several formats (dump, gz, POSCAR, extended xyz; custom columns; "
        "several snapshots in one file; longer and shorter contents over each other), read back by the same or another client, read "
        "faults with retries; non-trivial = at least one snapshot was read back and compared")

FMT = ["dump", "dump", "dumpgz", "gzflag", "poscar", "poscar_ase", "extxyz", "multi"]


def gen(rng, tier):
    clients = rng.choice([1, 1, 2, 3])
    specs = [G.gen_spec(rng, sizes=rng.choice([("tiny",), ("tiny", "small"), ("tiny", "mid")])) for _ in range(rng.choice([1, 2, 3]))]
    fm = rng.sample(FMT, rng.choice([1, 2, 4]))
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        op = dict(c=rng.randrange(clients), s=rng.randrange(len(specs)), fmt=rng.choice(fm), name=rng.randrange(2),
                  custom=rng.choice([None, None, "vals", "dict", "attr"]), ts=rng.choice([0, 5, 123456789]),
                  move=rng.random() < .4, seed=rng.getrandbits(20), fault=gen_read_fault(rng, .15))
        if op["fmt"] == "multi":
            op["with"] = [rng.randrange(len(specs)) for _ in range(rng.choice([1, 2]))]
        ops.append(op)
    plan = dict(specs=specs, clients=clients, ops=ops, schedule=gen_schedule(rng, clients) if clients > 1 else [],
                trace=clients > 1 or rng.random() < .3)
    plan.update(gen_io_knobs(rng))
    if plan["read_chunk"] == 1:
        plan["read_chunk"] = 7
    return plan


def same_lattice(box, ref, tol):
    """same vectors up to a common rotation"""
    a, b = np.asarray(box, float), np.asarray(ref, float)
    s = np.linalg.norm(b)
    return a.shape == (3, 3) and np.allclose(a @ a.T, b @ b.T, atol=tol * s * 4, rtol=0) and np.linalg.det(a) * np.linalg.det(b) > 0


def run(plan, ctx):
    import pyscal.core as pc
    import pyscal.trajectory as pt
    warnings.simplefilter("ignore")
    nc = plan["clients"]

    def fresh(c):
        out = []
        for sp in plan["specs"]:
            cfg = G.make(sp)
            s = ctx.must("build", cfg.system)
            rr = np.random.RandomState(sp["seed"] % 1000)
            e = np.round(rr.uniform(-5, 5, cfg.n), 6)
            if sp["seed"] % 3:
                # values of any magnitude, with all their digits
                e = rr.uniform(-5, 5, cfg.n) * 10. ** rr.randint(-11, 12 if sp["seed"] % 3 == 1 else -5, cfg.n)
            atoms = s.atoms
            for a, v in zip(atoms, e):
                a.custom = {"mylabel": repr(float(v)), "other": float(v) * 2, "tag": "some_long_label_%d_%r" % (sp["seed"], float(v))}
                a.energy = float(v) * 3
            s.atoms = atoms
            out.append([s, cfg, e])
        return out
    systems = [fresh(c) for c in range(nc)]

    def snapshot_differs(sys2, cfg, order=None, tol=2e-6, types=True, ids=True):
        atoms = sys2.atoms
        if len(atoms) != cfg.n or sys2.natoms != cfg.n:
            return "%d atoms instead of %d" % (len(atoms), cfg.n)
        o = list(range(cfg.n)) if order is None else order
        if ids and [a.id for a in atoms] != [cfg.ids[i] for i in o]:
            return "ids %s" % [a.id for a in atoms][:6]
        if types and [a.type for a in atoms] != [cfg.types[i] for i in o]:
            return "types %s instead of %s" % ([a.type for a in atoms][:8], [cfg.types[i] for i in o][:8])
        if not same_lattice(sys2.box, cfg.box, tol):
            return "box %s instead of %s" % (np.array(sys2.box).tolist(), cfg.box.tolist())
        # positions relative to the cell: independent of how the cell is oriented
        f1 = np.linalg.solve(np.array(sys2.box, float).T, np.array([a.pos for a in atoms]).T).T
        f0 = np.linalg.solve(cfg.box.T, cfg.pos[o].T).T
        d = f1 - f0
        d = (d - np.round(d)) @ cfg.box
        worst = np.abs(d).max()
        if worst > tol * 4 + 1e-7 * np.abs(cfg.pos).max():
            return "positions differ by %g" % worst
        return None

    def unchanged(c, si):
        s, cfg, e = systems[c][si]
        with ctx.judging():
            d = None
            if not np.array_equal(np.array([a.pos for a in s.atoms]), cfg.pos) or not np.array_equal(np.array(s.box, float), cfg.box):
                d = "positions or box changed"
            if [a.custom.get("mylabel") for a in s.atoms] != [repr(float(v)) for v in e]:
                d = "custom values changed"
            ctx.check(d is None, "write-changed-system", d)

    def write(c, op, s, name):
        _, cfg, e = systems[c][op["s"]]
        f = op["fmt"]
        species = D.SYMBOLS[:max(cfg.types)]
        kw = {}
        cols = {}
        if f in ("dump", "dumpgz", "gzflag", "multi"):
            kw["timestep"] = op["ts"]
            if op["custom"] == "vals":
                kw["customkeys"], kw["customvals"] = ["c_a", "c_b"], [[float(v), float(v) + 1] for v in e]
                cols = {"c_a": e, "c_b": e + 1}
            elif op["custom"] == "dict":
                kw["customkeys"] = ["mylabel", "tag", "other"] if op["seed"] % 2 else ["mylabel", "other"]
                cols = {"mylabel": e, "other": 2 * e}
                if op["seed"] % 2:
                    cols["tag"] = [a.custom["tag"] for a in s.atoms]
            elif op["custom"] == "attr":
                kw["customkeys"] = ["energy"]
                cols = {"energy": 3 * e}
        if f == "multi":
            fh = open(name, "w")
            try:
                s.to_file(fh, **kw)
                for j, k in enumerate(op["with"]):
                    systems[c][k][0].to_file(fh, timestep=op["ts"] + 1 + j)
            finally:
                fh.close()
        elif f == "dump":
            s.to_file(name, **kw)
        elif f in ("dumpgz", "gzflag"):
            s.to_file(name, compressed=True, **kw)
        elif f == "poscar":
            s.to_file(name, format="poscar")
        elif f == "poscar_ase":
            s.to_file(name, format="poscar", species=species)
        elif f == "extxyz":
            s.to_file(name, format="extxyz", species=species)
        return cols

    def body(c, op):
        s, cfg, e = systems[c][op["s"]]
        if op["move"]:
            r = np.random.RandomState(op["seed"])
            i = r.randint(cfg.n)
            at = ctx.must("get_atom", s.get_atom, i)
            p = r.rand(3) @ cfg.box
            at.pos = [float(v) for v in p]
            ctx.must("set_atom", s.set_atom, at)
            cfg.pos[i] = p
        f = op["fmt"]
        ctx.state(f, op["custom"], plan["specs"][op["s"]]["box"], cfg.n < 200, op["move"])
        name = "c%d_%d" % (c, op["name"]) + {"dumpgz": ".dump.gz"}.get(f, "")
        if f in ("poscar_ase", "extxyz"):
            types = sorted(set(cfg.types))
            if types != list(range(1, len(types) + 1)):
                return
        if op["fmt"] == "multi":
            op = dict(op, **{"with": [k for k in op["with"]]})
        cols = ctx.must("to_file(%s)" % f, write, c, op, s, name)
        unchanged(c, op["s"])
        keys = list(cols) or None
        what = "read_inputfile(%s)" % f

        def customs(s2):
            for k in cols:
                got = [a.custom[k] for a in s2.atoms]
                if k == "tag":
                    ok = got == cols[k]
                else:
                    got = [float(v) for v in got]
                    ok = len(got) == len(cols[k]) and np.allclose(got, cols[k], rtol=1e-6, atol=0)
                ctx.check(ok, "wrong-custom", lambda: "%s: %s instead of %s" % (k, got[:3], list(cols[k])[:3]))

        def reader(**kw):
            def go():
                s2 = pc.System()
                s2.read_inputfile(name, **kw)
                return s2
            return go
        if f in ("dump", "dumpgz", "gzflag", "multi"):
            kw = dict(customkeys=keys)
            if f == "gzflag":
                kw["compressed"] = True

            def judge(s2):
                d = snapshot_differs(s2, cfg)
                ctx.check(d is None, "wrong-snapshot", lambda: "%s: %s" % (f, d))
                customs(s2)
            attempt(ctx, op, what, reader(**kw), judge)
            if f in ("dump", "multi"):
                with open(name) as fh:
                    text = fh.read()
                with ctx.judging():
                    p = D.parse_dump(text)
                    ctx.check([q["timestep"] for q in p] == [op["ts"] + j for j in range(len(op.get("with", [])) + 1)],
                              "wrong-timestep", [q["timestep"] for q in p])
                    ctx.check([q["n"] for q in p] == [cfg.n] + [systems[c][k][1].n for k in op.get("with", [])], "wrong-snapshot", "numbers of atoms")
                if f == "multi" and all(systems[c][k][1].n == cfg.n for k in op["with"]):
                    def judge2(v):
                        ctx.check(len(v) == 1 + len(op["with"]), "wrong-frames", len(v))
                        for s2, k in zip(v, [op["s"]] + op["with"]):
                            d = snapshot_differs(s2, systems[c][k][1])
                            ctx.check(d is None, "wrong-snapshot", lambda: "frame of a trajectory: %s" % d)
                    attempt(ctx, op, "trajectory", lambda: pt.Trajectory(name)[:].to_system(), judge2)
        elif f == "poscar":
            order = [i for t in sorted(set(cfg.types)) for i in range(cfg.n) if cfg.types[i] == t]

            # no species in this layout: read with a parser of our own
            with open(name) as fh:
                lines = fh.read().split("\n")
            with ctx.judging():
                scale = float(lines[1])
                box = np.array([[float(v) for v in l.split()] for l in lines[2:5]]) * scale
                counts = [int(v) for v in lines[5].split()]
                ctx.check(lines[6].strip().lower().startswith("c"), "wrong-snapshot", "not cartesian: %r" % lines[6])
                ctx.check(counts == [cfg.types.count(t) for t in sorted(set(cfg.types))], "wrong-snapshot", "counts %s" % counts)
                pos = np.array([[float(v) for v in l.split()] for l in lines[7:7 + cfg.n]]) * scale
                ctx.check(D.near(box, cfg.box, 1e-10) and D.near(pos, cfg.pos[order], 1e-10) and not "".join(lines[7 + cfg.n:]).strip(),
                          "wrong-snapshot", "positions or box")
        else:
            species = D.SYMBOLS[:max(cfg.types)]
            if f == "poscar_ase":
                kw = dict(format="poscar")
            else:
                kw = dict(format="extxyz")

            def judge(s2):
                sym = [a.custom["species"] for a in s2.atoms]
                want = [species[t - 1] for t in cfg.types]
                d = None
                if len(sym) != cfg.n or sorted(sym) != sorted(want):
                    d = "species %s instead of %s" % (sym[:6], want[:6])
                else:
                    # the writer may group atoms by species; within one the order stays
                    left = {k: [i for i in range(cfg.n) if want[i] == k] for k in set(want)}
                    order = [left[k].pop(0) for k in sym]
                    d = snapshot_differs(s2, cfg, order, tol=1e-6, types=False, ids=False)
                ctx.check(d is None, "wrong-snapshot", lambda: "%s: %s" % (f, d))
            attempt(ctx, op, what, reader(**kw), judge)
        ctx.nontrivial = True
        ctx.probe("read_back_" + f)

    run_clients(ctx, plan, body)


def shrink(plan):
    if plan["clients"] > 1:
        yield dict(plan, clients=1, schedule=[])
    for i, sp in enumerate(plan["specs"]):
        for s in G.shrink_spec(sp):
            yield dict(plan, specs=plan["specs"][:i] + [s] + plan["specs"][i + 1:])
    for i, op in enumerate(plan["ops"]):
        for k, v in (("custom", None), ("move", False), ("fmt", "dump")):
            if op.get(k) != v:
                yield dict(plan, ops=plan["ops"][:i] + [dict(op, **{k: v})] + plan["ops"][i + 1:])
