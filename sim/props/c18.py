"""Systems, atoms and threads do not influence each other"""
import gzip
import hashlib
import os
import warnings
import numpy as np
from sim import sysgen as G, world as W, dump as D, rt
from sim.iokit import gen_schedule

ID = "C18"
QUICK, THOROUGH, TIMEOUT = 190, 20000, 180
RULE = ("a run = 2-3 client threads, each with Systems and trajectories of its own over shared Atom objects, shared input files and shared arrays, interleaved at every line "
        "of the package by a seeded schedule, interrupts and exceptions in callbacks of single clients; afterwards each client's operations are executed alone and everything "
        "it saw has to be the same, bit by bit; objects handed out or in earlier have to be unchanged; non-trivial = at least one context switch")
ANALYSES = [a for a in W.ANALYSES if a not in ("rdf", "extract")]

LIGHT = [a for a in ANALYSES if a not in W.HEAVY]
FORMATS = ["lammps-dump", "poscar", "lammps-data", "dump.gz"]


def gen(rng, tier):
    nc = rng.choice([2, 2, 3])
    duels = rng.choice([0, .3, 1, 1])
    specs = W.gen_world(rng, nspecs=(1, 2, 3), big=0, sizes=("mid",) if duels == 1 else rng.choice([("tiny",), ("tiny", "small"), ("small",), ("small", "mid")]))
    shapes = [D.gen_shape(rng) for _ in range(rng.choice([1, 2]))]
    ops = []
    analyses = rng.sample(ANALYSES, rng.choice([1, 2, 4, 10]))
    kinds = rng.sample(["shared", "config", "analysis", "analysis", "analysis", "read", "write", "traj", "keep", "edit", "callback", "interrupt", "move", "box", "add", "convert"],
                       rng.choice([4, 7, 12]))
    for _ in range(rng.choice([4, 6, 10]) if duels == 1 else rng.choice([3, 5, 8, 12])):
        k = rng.choice(kinds)

        def one(**kw):
            return dict(dict(c=rng.randrange(nc), k=k, seed=rng.getrandbits(24), a=rng.choice(analyses), spec=rng.randrange(len(specs)), f=rng.randrange(len(shapes)),
                             i=rng.randrange(12), at=1 + int(rng.expovariate(1 / rng.choice([10., 60., 400.]))), fmt=rng.choice(FORMATS)), **kw)
        if rng.random() < duels:
            # all clients do the same thing with parameters of their own, at the same time
            k = rng.choice(["analysis"] * 6 + ["write", "write", "convert", "callback", "read", "traj"])
            a, fmt = rng.choice(ANALYSES if rng.random() < .1 else LIGHT), rng.choice(FORMATS)
            ops += [one(c=c, a=a, fmt=fmt, meet=True) for c in range(nc)]
        else:
            ops.append(one())
    fine = duels and rng.random() < .7
    return dict(specs=specs, shapes=shapes, ops=ops, clients=nc,
                schedule=gen_schedule(rng, nc, quanta=(1, 2, 4, 10) if fine else (1, 3, 10, 40, 150, 1000), length=(600, 2000) if fine else (20, 60, 200, 600)))


class Client:
    def __init__(self, ctx, plan, c, shared, tag):
        self.ctx, self.plan, self.c, self.shared, self.tag = ctx, plan, c, shared, tag
        self.w = None
        self.seen = []          # what it saw, in order
        self.kept = []          # objects handed out, with what they showed
        self.t = {}

    def world(self):
        if self.w is None:
            self.w = W.World(self.ctx, self.plan["specs"])
        return self.w

    def note(self, *what):
        self.seen.append(what)

    def run(self):
        for op in self.plan["ops"]:
            if op["c"] == self.c:
                self.op(op)
        if self.w is not None:
            self.note("end", W.show_system(self.w.s, 1000))

    def op(self, op):
        ctx, k, plan = self.ctx, op["k"], self.plan
        w = self.world()
        s = w.s
        if op.get("meet"):
            ctx.meet()
        if k == "shared":
            # the same Atom objects and the same box array as everybody else
            cfg, atoms, box = self.shared["configs"][op["spec"]]

            def put():
                s.box = box
                s.atoms = atoms
            ctx.must("assign shared atoms", put)
            w.cfg, w.spec = cfg.copy(), plan["specs"][op["spec"]]
        elif k == "config":
            w.history(dict(op, fresh=bool(op["seed"] % 3 == 0)))
        elif k in ("move", "box", "add"):
            if w.cfg.n < 200 or k == "move":
                w.history(op)
        elif k == "analysis":
            ok, v = ctx.call(w.run_analysis, op["a"], op["seed"], lambda atom: atom.type == 1)
            self.note(op["a"], ok, None if ok else type(v).__name__, W.show_system(s, 60))
        elif k == "callback":
            left = [op["at"] % 20]

            def cb(atom):
                left[0] -= 1
                if left[0] < 0:
                    raise rt.Injected("callback")
                return atom.type == 1
            ok, v = ctx.call(w.run_analysis, ["cluster", "qcond"][op["seed"] % 2], op["seed"], cb)
            if not ok and isinstance(v, rt.Injected):
                ctx.fault_fired("callback-exception")
            self.note(k, ok, W.show_system(s, 60))
        elif k == "interrupt":
            ctx.interrupt_after(op["at"])
            try:
                ok, v = ctx.call(w.run_analysis, op["a"], op["seed"], lambda atom: atom.type == 1)
            finally:
                fired = ctx.interrupt_off()
            if fired:
                # it may hit between any two statements: assign again
                ctx.must("assign configuration", w.assign)
            self.note(k, ok, fired, W.show_system(s, 60))
        elif k == "keep":
            atoms = s.atoms if op["seed"] % 2 else [s.get_atom(i % s.ntotal) for i in range(5)]
            self.kept.append((atoms, W.fingerprint(atoms), "atoms handed out by client %d" % self.c))
        elif k == "edit":
            atoms = s.atoms
            for a in atoms[:1 + op["i"]]:
                a.type = 1 + op["seed"] % 3
                a.custom = dict(a.custom, mark="%d/%d" % (self.c, op["seed"]))
                a.solid = True
            self.kept.append((atoms, W.fingerprint(atoms), "atoms changed by client %d" % self.c))
            if op["seed"] % 2:
                ctx.must("assign changed atoms", setattr, s, "atoms", atoms)
                for a, i in zip(atoms, range(1 + op["i"])):
                    w.cfg.types[i] = a.type
        elif k == "read":
            import pyscal.core as core
            t = ctx.must("System", core.System)
            ctx.must("read", t.read_inputfile, self.shared["single"][op["f"]])
            self.note(k, W.show_system(t))
            if op["seed"] % 2:
                ok, v = ctx.call(lambda: t.find_neighbors(method="cutoff", cutoff=0))
                self.note(k, ok, W.show_system(t))
        elif k == "traj":
            import pyscal.trajectory as pt
            f = op["f"]
            if f not in self.t:
                self.t[f] = ctx.must("open", pt.Trajectory, self.shared["files"][f])
            t = self.t[f]
            n = plan["shapes"][f]["nframes"]
            sl = t[op["i"] % n] if op["seed"] % 2 else t[: 1 + op["i"] % n]
            ss = ctx.must("to_system", sl.to_system)
            for x in (ss if isinstance(ss, list) else [ss]):
                self.note(k, W.show_system(x))
        elif k == "write":
            name = os.path.join(ctx.root, "%s-%d.%d" % (self.tag, self.c, op["seed"] % 3))
            fmt = op["fmt"]
            kw = dict(format="lammps-dump", compressed=True) if fmt == "dump.gz" else dict(format=fmt)
            if fmt == "lammps-data":
                kw["species"] = D.SYMBOLS[:max(w.cfg.types)]
            ok, v = ctx.call(lambda: s.to_file(name, **kw))
            path = name + ".gz" if fmt == "dump.gz" and os.path.exists(name + ".gz") else name
            data = b""
            if os.path.exists(path):
                with open(path, "rb") as g:
                    data = g.read()
                if data[:2] == b"\x1f\x8b":        # there is a time in it
                    data = gzip.decompress(data)
            self.note(k, fmt, ok, len(data), hashlib.sha256(data).hexdigest())
        elif k == "convert":
            ok, v = ctx.call(lambda: s.to_ase(species=D.SYMBOLS[:len(set(w.cfg.types))]))
            if ok:
                self.note(k, repr(W.plain(v.get_positions())), repr(W.plain(np.array(v.get_cell()))), v.get_chemical_symbols())
            else:
                self.note(k, type(v).__name__)
        ctx.state(k, op["a"] if k in ("analysis", "interrupt") else None, plan["clients"])


def run(plan, ctx):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    shared = dict(configs=[], files=[], single=[])
    for sp in plan["specs"]:
        cfg = G.make(sp)
        shared["configs"].append((cfg, cfg.atoms(), cfg.box.copy()))
    for i, sh in enumerate(plan["shapes"]):
        frames = D.frames_of(sh)
        for kind, fr in (("files", frames), ("single", frames[:1])):
            name = os.path.join(ctx.root, "%s%d.dump" % (kind, i))
            with open(name, "w") as f:
                f.write("".join(x.text for x in fr))
            shared[kind].append(name)
    before = [W.fingerprint(a) for _, a, _ in shared["configs"]]
    boxes = [b.copy() for _, _, b in shared["configs"]]

    together = [Client(ctx, plan, c, shared, "t") for c in range(plan["clients"])]
    ctx.clients([x.run for x in together], plan["schedule"])
    ctx.nontrivial = ctx.probes.get("context_switches", 0) > plan["clients"]

    def unchanged(when):
        for (cfg, atoms, box), fp, b in zip(shared["configs"], before, boxes):
            d = W.differs(fp, W.fingerprint(atoms))
            ctx.check(not d, "handed-in-changed", lambda: "%s: %s of atoms that were assigned to a System have changed" % (when, ", ".join(d)))
            ctx.check(np.array_equal(box, b), "handed-in-changed", "%s: the array assigned to box has changed" % when)
        for x in together:
            for atoms, fp, what in x.kept:
                d = W.differs(fp, W.fingerprint(atoms))
                ctx.check(not d, "handed-out-changed", lambda: "%s: %s of %s have changed" % (when, ", ".join(d), what))
    unchanged("together")
    for c in range(plan["clients"]):
        alone = Client(ctx, plan, c, shared, "a")
        ctx.trace_on()
        alone.run()
        a, b = alone.seen, together[c].seen
        ctx.check(len(a) == len(b), "interference", lambda: "client %d saw %d results together and %d alone" % (c, len(b), len(a)))
        for x, y in zip(a, b):
            if x != y:
                d = []
                if isinstance(x[-1], dict):
                    d = W.differs(x[-1], y[-1])
                ctx.fail("interference", "client %d: %s differs: %s" % (c, x[0], ", ".join(d) or "%s / %s" % (str(x[1:])[:150], str(y[1:])[:150])))
        ctx.event("client", c, hashlib.sha256(repr(a).encode()).hexdigest())
        ctx.probe("results_compared", len(a))
    unchanged("alone")


def shrink(plan):
    yield from W.shrink_world(plan)
    for i, sh in enumerate(plan["shapes"]):
        for s in D.shrink_shape(sh):
            yield dict(plan, shapes=plan["shapes"][:i] + [s] + plan["shapes"][i + 1:])
