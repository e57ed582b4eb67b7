"""calculate_energy gives every atom its own energy and leaves no file behind"""
import os, sys, types, warnings
import numpy as np
from sim import dump as D, sysgen as G, rt
from sim.iokit import *

ID = "C08"
QUICK, THOROUGH, TIMEOUT = 420, 20000, 120
RULE = ("a run = 1-3 client threads with systems of their own (with and without periodic images, triclinic, ids with gaps or shuffled) that "
        "compute energies with a simulated LAMMPS that numbers atoms in a seeded order, fails or is interrupted at a seeded command; disk "
        "faults and interrupts while the input for it is written; atoms move between calls; non-trivial = energies were compared")
REAL = ["all of pyscal's Python code", "pyscal's C++ extension modules", "ase's lammps-data writer"]
STUB = ["the lammps library (reads the data file it is given, its energies are functions of the coordinates in it)",
        "raw files (simulated disk)", "thread scheduling", "uuid4, clock, PRNGs seeded"]


def gen(rng, tier):
    clients = rng.choice([1, 1, 2, 3])
    specs = [G.gen_spec(rng, sizes=rng.choice([("tiny",), ("tiny", "small"), ("mid",)])) for _ in range(clients)]
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        op = dict(c=rng.randrange(clients), averaged=rng.random() < .6, neigh=rng.choice([None, "cutoff", "cutoff"]),
                  order=rng.getrandbits(20), move=rng.random() < .4, seed=rng.getrandbits(20), coeff=rng.choice(["* * A", "* * B", "1 1 C"]),
                  mass=rng.choice([1.0, 55.8]), fault=None)
        u = rng.random()
        if u < .15:
            op["fault"] = dict(op="lammps", at=rng.randrange(12), kind=rng.choice(["Exception", "KeyboardInterrupt", "MemoryError"]))
        elif u < .3:
            op["fault"] = dict(op="write", kind=rng.choice(["ENOSPC", "EIO", "short"]), at=rng.randrange(4), n_bytes=rng.choice([0, 20]), file="*")
        elif u < .35:
            op["fault"] = dict(op=rng.choice(["open", "close"]), kind="EIO", at=rng.randrange(2), file="*")
        elif u < .45:
            op["fault"] = dict(op="interrupt", at=1 + int(rng.expovariate(1 / 100.)))
        elif u < .5:
            op["fault"] = dict(op="read", kind="EIO", at=rng.randrange(2), file="*")
        ops.append(op)
    plan = dict(specs=specs, clients=clients, ops=ops, schedule=gen_schedule(rng, clients) if clients > 1 else [],
                trace=clients > 1 or any((o["fault"] or {}).get("op") == "interrupt" for o in ops))
    plan.update(gen_io_knobs(rng))
    if plan["read_chunk"] == 1:
        plan["read_chunk"] = 7
    return plan


def value(frac, typ, coeff, mass):
    """periodic in all fractional coordinates, different for every atom"""
    t = 2 * np.pi * np.asarray(frac)
    e = np.sin(t[..., 0]) + 1.7 * np.cos(t[..., 0]) + 2.3 * np.sin(t[..., 1]) + .9 * np.cos(t[..., 1]) + .6 * np.sin(t[..., 2]) + 3.1 * np.cos(t[..., 2])
    return e + 10 * np.asarray(typ, float) + {"A": 0, "B": 1000, "C": 2000}[coeff[-1]] + mass


class Lammps(types.ModuleType):
    def __init__(self, ctx, settings):
        types.ModuleType.__init__(self, "lammps")
        sim = self

        class lammps:
            def __init__(self, *a, **kw):
                self.cmds, self.data = [], None
                self.set = settings[ctx.client()]

            def command(self, text):
                k = len(self.cmds)
                self.cmds.append(text)
                ctx.sched_point("lammps")
                f = self.set.get("fault")
                if f and f["op"] == "lammps" and f["at"] == k:
                    self.set["fired"] = True
                    ctx.fault_fired("lammps-" + f["kind"])
                    raise {"Exception": Exception, "KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[f["kind"]]("simulated")
                w = text.split()
                if w and w[0] == "read_data":
                    with open(text[len("read_data "):]) as fh:
                        self.data = parse_data(fh.read())

            def _order(self):
                n = len(self.data["id"])
                return np.random.RandomState(self.set["order"]).permutation(n)

            def extract_compute(self, name, style, typ):
                par = {}
                for c in self.cmds:
                    w = c.split(None, 1)
                    if w[0] in ("pair_style", "pair_coeff", "mass"):
                        par[w[0]] = w[1]
                self.set["par"] = par
                d = self.data
                self.set["volume"] = abs(np.linalg.det(d["box"]))
                self.set["gram"] = d["box"] @ d["box"].T
                e = value(d["frac"], d["type"], par["pair_coeff"], float(par["mass"].split()[-1]))
                return [float(v) for v in e[self._order()]]

            def extract_atom(self, name, typ=0):
                return [int(v) for v in np.array(self.data["id"])[self._order()]]

            def get_natoms(self):
                return len(self.data["id"])

            def close(self):
                pass
        self.lammps = lammps


def parse_data(text):
    lines = text.split("\n")
    lo, hi, tilt = [0] * 3, [0] * 3, [0.] * 3
    i = 0
    ids, typ, pos = [], [], []
    natoms = None
    while i < len(lines):
        w = lines[i].split("#")[0].split()
        if len(w) == 2 and w[1] == "atoms":
            natoms = int(w[0])
        for k, c in enumerate("xyz"):
            if len(w) == 4 and w[2] == c + "lo":
                lo[k], hi[k] = float(w[0]), float(w[1])
        if len(w) == 6 and w[3] == "xy":
            tilt = [float(v) for v in w[:3]]
        if w[:1] == ["Atoms"]:
            i += 1
            while i < len(lines) and len(ids) < natoms:
                r = lines[i].split("#")[0].split()
                if r:
                    ids.append(int(r[0]))
                    typ.append(int(r[1]))
                    pos.append([float(v) for v in r[2:5]])
                i += 1
        i += 1
    if natoms is None or len(ids) != natoms:
        raise Exception("ERROR: Did not find all atoms in the data file")
    l = np.array(hi) - np.array(lo)
    box = np.array([[l[0], 0, 0], [tilt[0], l[1], 0], [tilt[1], tilt[2], l[2]]])
    frac = np.linalg.solve(box.T, (np.array(pos) - lo).T).T
    return dict(id=ids, type=typ, box=box, frac=frac)


def run(plan, ctx):
    warnings.simplefilter("ignore")
    settings = {c: {} for c in range(-1, plan["clients"])}
    sys.modules["lammps"] = Lammps(ctx, settings)
    st = {}
    files = set(os.listdir("."))

    def body(c, op):
        if c not in st:
            cfg = G.make(plan["specs"][c])
            if sorted(set(cfg.types)) != list(range(1, max(cfg.types) + 1)):
                cfg.types = [1] * cfg.n
            st[c] = [ctx.must("build", cfg.system), cfg, False]
        s, cfg, neighbors = st[c]
        if op["move"]:
            r = np.random.RandomState(op["seed"])
            i = r.randint(cfg.n)
            at = ctx.must("get_atom", s.get_atom, i)
            p = r.rand(3) @ cfg.box
            at.pos = [float(v) for v in p]
            ctx.must("set_atom", s.set_atom, at)
            cfg.pos[i] = p
        if op["neigh"] and not op["fault"]:
            w = G.widths(s.box if False else cfg.box).min()
            d = (cfg.volume() / cfg.n) ** (1 / 3.)
            ok, _ = ctx.call(lambda: s.find_neighbors(method="cutoff", cutoff=min(1.3 * d, .9 * w if cfg.n < 100 else .45 * w)))
        species = D.SYMBOLS[:max(cfg.types)]
        me = ctx.client()
        flt = op["fault"]
        settings[me].clear()
        settings[me].update(order=op["order"], fault=flt)
        with ctx.judging():
            before = [(a.energy, a.avg_energy) for a in s.atoms]
        own = set(os.listdir("."))
        kw = dict(species=species, pair_style="eam/alloy", pair_coeff=op["coeff"], mass=op["mass"], averaged=op["averaged"])
        fired = False
        if flt:
            if flt["op"] == "interrupt":
                ctx.interrupt_after(flt["at"])
            elif flt["op"] != "lammps":
                ctx.fs.arm([flt])
            ok, v = ctx.call(s.calculate_energy, **kw)
            err = "" if ok else type(v).__name__
            v = None
            if flt["op"] == "interrupt":
                fired = ctx.interrupt_off()
            elif flt["op"] == "lammps":
                fired = settings[me].get("fired", False)
            else:
                fired = bool(ctx.fs.disarm())
            ctx.event("calculate_energy", ok, err, fired)
            ctx.state("fault", flt["op"], flt.get("kind"), ok, cfg.n < 200)
            # adaptive averaging can refuse tiny configurations
            if not ok:
                if flt["op"] != "interrupt":
                    left = {f for f in os.listdir(".") if f not in files} if plan["clients"] == 1 else set()
                    ctx.check(not left, "file-left-behind", lambda: "after %s: %s" % (err, sorted(left)))
                    with ctx.judging():
                        now = [(a.energy, a.avg_energy) for a in s.atoms]
                        ctx.check(now == before, "failed-call-changed-energies", "after %s" % err)
                else:
                    for f in set(os.listdir(".")) - own:
                        if plan["clients"] == 1:
                            os.unlink(f)
                config(s, cfg)
                settings[me].update(fault=None)
            else:
                judge(s, cfg, op, me)
                return
        ok, v = ctx.call(s.calculate_energy, **kw)
        if not ok and op["averaged"] and cfg.n < 30 and isinstance(v, RuntimeError):
            ctx.event("no neighbors")
            return
        if not ok:
            ctx.fail("unexpected-error", "calculate_energy raised %s: %s" % (type(v).__name__, str(v)[:200]))
            return
        judge(s, cfg, op, me)

    def config(s, cfg):
        with ctx.judging():
            at = s.atoms
            ctx.check(np.array_equal(np.array([a.pos for a in at]), cfg.pos) and [a.id for a in at] == cfg.ids and
                      [a.type for a in at] == cfg.types and np.allclose(np.array(s.box, float), cfg.box, rtol=1e-12), "call-changed-system", "")

    def judge(s, cfg, op, me):
        with ctx.judging():
            config(s, cfg)
            frac = np.linalg.solve(cfg.box.T, cfg.pos.T).T
            want = value(frac, cfg.types, op["coeff"], op["mass"])
            atoms = s.atoms
            got = np.array([a.energy for a in atoms])
            bad = np.where(~(np.abs(got - want) < 1e-4 * (1 + np.abs(want))))[0]
            ctx.check(len(bad) == 0, "wrong-energy", lambda: "%d of %d atoms, atom %d has %r instead of %r" % (len(bad), cfg.n, bad[0], got[bad[0]], want[bad[0]]))
            g = cfg.box @ cfg.box.T
            ctx.check(np.allclose(settings[me]["gram"], g, atol=1e-4 * np.abs(g).max()), "wrong-cell", "cell given to lammps")
            par = settings[me]["par"]
            ctx.check(par.get("pair_style") == "eam/alloy", "wrong-parameters", par)
            if op["averaged"]:
                allat = s.get_all_atoms()
                head = heads(allat, cfg)
                for i, a in enumerate(atoms):
                    nb = [head[j] for j in a.neighbors]
                    w = (want[i] + sum(want[j] for j in nb)) / (1 + len(nb))
                    ctx.check(abs(a.avg_energy - w) < 1e-4 * (1 + abs(w)), "wrong-average",
                              lambda: "atom %d with %d neighbors: %r instead of %r" % (i, len(nb), a.avg_energy, w))
                ctx.probe("averages")
            ctx.nontrivial = True
            ctx.state("ok", op["averaged"], cfg.n < 200, plan["specs"][max(0, me)]["box"], plan["specs"][max(0, me)]["ids"])
            ctx.event("energies", [round(float(v), 4) for v in got[:5]])
            if plan["clients"] == 1:
                left = set(os.listdir(".")) - files
                ctx.check(not left, "file-left-behind", lambda: sorted(left))

    run_clients(ctx, plan, body)
    left = set(os.listdir(".")) - files
    if not any((o["fault"] or {}).get("op") == "interrupt" for o in plan["ops"]):
        ctx.check(not left, "file-left-behind", lambda: sorted(left))


def heads(allat, cfg):
    """index of the atom of the configuration of which each stored atom is an image"""
    from scipy.spatial import cKDTree
    def key(p):
        f = np.linalg.solve(cfg.box.T, np.asarray(p).T).T
        f = f - np.floor(f)
        t = 2 * np.pi * f
        return np.hstack([np.cos(t), np.sin(t)])
    tree = cKDTree(key(cfg.pos))
    d, j = tree.query(key(np.array([a.pos for a in allat])))
    if d.max() > 1e-4:
        raise ValueError("stored atom that is no image of any atom")
    return [int(v) for v in j]


def shrink(plan):
    if plan["clients"] > 1:
        yield dict(plan, clients=1, specs=plan["specs"][:1], schedule=[], ops=[dict(o, c=0) for o in plan["ops"]])
    for i, sp in enumerate(plan["specs"]):
        for s in G.shrink_spec(sp):
            yield dict(plan, specs=plan["specs"][:i] + [s] + plan["specs"][i + 1:])
    for i, op in enumerate(plan["ops"]):
        for k, v in (("averaged", False), ("neigh", None), ("move", False)):
            if op.get(k) != v:
                yield dict(plan, ops=plan["ops"][:i] + [dict(op, **{k: v})] + plan["ops"][i + 1:])
