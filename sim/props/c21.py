"""An operation that fails at any point harms nothing and gives the same when it is repeated"""
import collections, gc, hashlib, os, sys, warnings
import numpy as np
from sim import sysgen as G, world as W, dump as D, rt

ID = "C21"
QUICK, THOROUGH, TIMEOUT = 400, 20000, 180
RULE = ("a run = one operation (an analysis, an assignment, a file read or written, frames of a trajectory loaded, converted or written), whose "
        "allocations, lines of Python, disk operations or callbacks are counted in a first execution; then it is executed again and again, with a failure at places "
        "spread over all of them, in one object or in new ones; after each failure the configuration is judged and the operation repeated without one, "
        "and everything that is shown then has to be what the undisturbed execution shows, bit by bit; non-trivial = an execution failed in the middle")
REAL = ["all of pyscal's Python code", "pyscal's C++ extension modules", "ase"]

FS = ("t.load", "t.system", "t.dict", "t.file", "t.open", "read", "write", "t.ase", "t.split")
OPS = ["analysis"] * 6 + ["assign", "box", "add", "read", "write", "setatom", "crystal", "t.load", "t.system", "t.dict", "t.ase", "t.file", "t.open", "t.split"]


def gen(rng, tier):
    specs = W.gen_world(rng, nspecs=(2,), big=.01, sizes=rng.choice([("tiny",), ("tiny",), ("tiny", "small"), ("small",)]))
    k = rng.choice(OPS)
    op = dict(k=k, seed=rng.getrandbits(24), a=rng.choice([a for a in W.ANALYSES if a != "wronguse"]), fmt=rng.choice(["dump", "gz", "poscar", "extxyz", "lammps-data"]))
    kinds = ["alloc", "interrupt"] if k not in FS else ["interrupt", "disk", "disk"] + (["alloc"] if k[:2] != "t." else [])
    # (making a System allocates in pybind11, outside of everything that could handle a failure: no such failures there)
    if k == "analysis" and op["a"] in ("qcond", "cluster"):
        kinds.append("callback")
    kind = rng.choice(kinds)
    n = rng.choice([2, 5, 10])
    fracs = [rng.random() for _ in range(n)] if rng.random() < .5 else [(j + rng.random()) / n for j in range(n)]
    if rng.random() < .3:
        # the beginning, or the end, of everything
        fracs = [f ** 4 if rng.random() < .5 else 1 - f ** 4 for f in fracs]
    return dict(specs=specs, op=op, kind=kind, fracs=fracs, chain=rng.random() < .4, persist=rng.random() < .2,
                shape=D.gen_shape(rng), prelude=[dict(a=rng.choice(W.ANALYSES), seed=rng.getrandbits(20)) for _ in range(rng.choice([0, 0, 1, 2]))],
                buffer=rng.choice([0, 0, 64, 300]), read_chunk=rng.choice([0, 0, 64, 500]), trace=False)


class Subject:
    """an object, and the operation on it"""

    def __init__(self, plan, ctx, refused=()):
        self.plan, self.ctx = plan, ctx
        self.w = W.World(ctx, plan["specs"])
        self.boom, self.raised = [-1], False
        self.calls = 0
        for p in plan["prelude"]:
            if not (self.w.cfg.n > 1500 and p["a"] in W.HEAVY):
                ctx.call(self.w.run_analysis, p["a"], p["seed"], lambda atom: atom.type == 1)
        self.fn, self.show, self.harm = getattr(self, "do_" + plan["op"]["k"].replace(".", "_"))(plan["op"])

    def cb(self, atom):
        self.calls += 1
        self.boom[0] -= 1
        if self.boom[0] == -1:
            self.ctx.fault_fired("callback-exception")
            self.raised = True
            raise rt.Injected("callback")
        return atom.type == 1

    def system(self, value=False):
        w = self.w
        w.s.natoms
        return dict(W.show_system(w.s, 400), **({"(value)": repr(W.plain(value))} if value is not False else {}))

    def same_config(self, what):
        self.w.check_config(what)

    # what is executed, what it shows, and how a failed one is judged
    def do_analysis(self, op):
        w = self.w
        return lambda: w.run_analysis(op["a"], op["seed"], self.cb), lambda v: self.system(), self.same_config

    def do_assign(self, op):
        w = self.w
        new = G.make(self.plan["specs"][1])
        atoms = new.atoms()

        def fn():
            w.s.box = new.box.tolist()
            w.s.atoms = atoms
        return fn, lambda v: self.system(), None

    def do_box(self, op):
        w = self.w
        box = (w.cfg.box * 1.1).tolist()

        def fn():
            w.s.box = box
        return fn, lambda v: self.system(), None

    def do_add(self, op):
        w = self.w
        new = G.make(self.plan["specs"][1]).atoms()[:5]
        for j, a in enumerate(new):
            a.id = max(w.cfg.ids) + 1 + j
        n = w.cfg.n

        def fn():
            if w.s.natoms == n:
                w.s.add_atoms(new)
        return fn, lambda v: self.system(), self.same_config

    def do_setatom(self, op):
        w = self.w
        a = w.s.get_atom(op["seed"] % w.cfg.n)
        a.custom = dict(x=1)
        a.neighbors = [0] * 5
        a.type = 3
        a.allq = [.5] * 11

        return lambda: w.s.set_atom(a), lambda v: self.system(), self.same_config

    def do_crystal(self, op):
        import pyscal.crystal_structures as pcs
        names = ["bcc", "fcc", "hcp", "diamond", "a15", "l12", "b2"]
        name, rep = names[op["seed"] % 7], [1 + op["seed"] // 7 % 3, 1 + op["seed"] // 21 % 3, 2]
        return (lambda: pcs.make_crystal(name, lattice_constant=3.2, repetitions=rep),
                lambda v: dict(W.fingerprint(v[0]), box=repr(W.plain(v[1]))), self.same_config)

    def do_read(self, op):
        w, ctx = self.w, self.ctx
        new = G.make(self.plan["specs"][1])
        f = op["fmt"] if op["fmt"] in ("dump", "gz", "poscar") else "dump"
        name = "r." + f + (".gz" if f == "gz" else "")
        if not os.path.exists(name):
            ctx.must("write", new.system().to_file, name, **({"format": "poscar"} if f == "poscar" else {"compressed": f == "gz"}))
        return (lambda: w.s.read_inputfile(name, format="poscar" if f == "poscar" else "lammps-dump", compressed=f == "gz"),
                lambda v: self.system(), self.same_config)

    def do_write(self, op):
        w, f = self.w, op["fmt"]
        name = "w" + (".gz" if f == "gz" else "." + f)
        kw = dict(compressed=f == "gz", customkeys=["c_v"], customvals=[[i + .5] for i in range(w.cfg.n)]) if f in ("dump", "gz") else (
            dict(format="poscar") if f == "poscar" else dict(format=f, species=D.SYMBOLS[:max(w.cfg.types)]))

        def show(v):
            import gzip
            with (gzip.open if f == "gz" else open)(name, "rb") as fh:
                return dict(self.system(), text=fh.read().decode())
        return lambda: w.s.to_file(name, **kw), show, self.same_config

    # -- trajectories ---------------------------------------------------------
    def traj(self):
        import pyscal.trajectory as pt
        if not os.path.exists("t.dump"):
            with open("t.dump", "w") as f:
                f.write("".join(x.text for x in D.frames_of(self.plan["shape"])))
        t = self.ctx.must("open", pt.Trajectory, "t.dump")
        n = t.nblocks
        i = self.plan["op"]["seed"] % n
        j = i + 1 + self.plan["op"]["seed"] // n % (n - i)
        return t, i, j

    def frames(self, t, v=None):
        out = {}
        for i in range(t.nblocks):
            out["loaded %d" % i] = repr(bool(t.loadlist[i]))
        for i, s in enumerate(t[:].to_system()):
            out["frame %d" % i] = repr((W.fingerprint(s.atoms), W.plain(s.box)))
        return out

    def do_t_load(self, op):
        t, i, j = self.traj()

        def fn():
            for x in range(i, j):
                t.load(x)
            if op["seed"] & 64:
                t.unload(i)
        return fn, lambda v: self.frames(t), lambda what: self.ctx.check(t.nblocks == self.nblocks(), "frames", "%s: %d frames" % (what, t.nblocks))

    def nblocks(self):
        return len(D.frames_of(self.plan["shape"]))

    def do_t_system(self, op):
        t, i, j = self.traj()
        return (lambda: t[i:j].to_system(), lambda v: dict(self.frames(t), **{"value %d" % k: repr((W.fingerprint(s.atoms), W.plain(s.box))) for k, s in enumerate(v)}),
                lambda what: self.ctx.check(t.nblocks == self.nblocks(), "frames", "%s: %d frames" % (what, t.nblocks)))

    def do_t_dict(self, op):
        t, i, j = self.traj()
        return lambda: t[i:j].to_dict(), lambda v: dict(self.frames(t), value=repr(W.plain(v))), None

    def do_t_ase(self, op):
        t, i, j = self.traj()
        return (lambda: t[i:j].to_ase(species=D.SYMBOLS[:9]),
                lambda v: dict(self.frames(t), value=repr([(a.get_positions().tolist(), a.get_chemical_symbols(), np.array(a.get_cell()).tolist()) for a in v])), None)

    def do_t_file(self, op):
        t, i, j = self.traj()
        self.ctx.must("load", t.load, i)

        def show(v):
            with open("u.dump") as fh:
                return dict(self.frames(t), text=fh.read())
        return lambda: t[i:j].to_file("u.dump"), show, None

    def do_t_open(self, op):
        import pyscal.trajectory as pt
        self.traj()
        return lambda: pt.Trajectory("t.dump"), self.frames, None

    def do_t_split(self, op):
        import pyscal.traj_process as ptp
        self.traj()

        def fn():
            return ptp.split_trajectory("t.dump")

        def show(v):
            out = {}
            for x in v:
                with open(x) as f:
                    out[x] = f.read()
            return out
        return fn, show, None


def run(plan, ctx):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    kind, k = plan["kind"], plan["op"]["k"]
    if plan["op"]["k"] == "analysis" and G.make(plan["specs"][0]).n > 1500 and plan["op"]["a"] in W.HEAVY:
        return
    one = Subject(plan, ctx)
    # an interrupt may hit between any two statements: the user assigns the configuration again
    again = kind == "interrupt" and k[:2] != "t." and k not in ("crystal", "write")
    if again:
        ctx.must("assign configuration", one.w.assign)
    # how many places there are
    ctx.alloc.reset_count()
    fs0 = collections.Counter(ctx.io_ops)
    (ok, v), lines = ctx.lines_of(one.fn) if kind == "interrupt" else (ctx.call(one.fn), 0)
    allocs = ctx.alloc.count_of("csystem")
    if not ok:
        # refused, for a reason of its own: nothing to compare with
        ctx.event("refused", type(v).__name__)
        ctx.state("refused", k, plan["op"]["a"])
        with ctx.judging():
            one.harm and one.harm("refused")
        return
    with ctx.judging():
        want = one.show(v)
    v = None
    disk = [(o, i) for o, n in sorted((collections.Counter(ctx.io_ops) - fs0).items()) for i in range(n)] if kind == "disk" else []
    total = dict(alloc=allocs, interrupt=lines, disk=len(disk), callback=one.calls)[kind]
    if not total:
        ctx.event("nothing to fail")
        return
    sub, failed = None, 0
    for frac in plan["fracs"]:
        if sub is None or not plan["chain"] or k in ("read", "add", "setatom", "assign", "box"):
            sub = None
            sub = Subject(plan, ctx)
        at = min(total - 1, int(frac * total))
        what = "%s with %s %d of %d" % (k if k != "analysis" else plan["op"]["a"], kind, at + 1, total)
        if kind == "callback":
            sub.boom[0] = at
        flt = dict(alloc=dict(op="alloc", at=at, persist=plan["persist"]), interrupt=dict(op="interrupt", at=at + 1),
                   callback=dict(op="callback", at=at), disk=None)[kind]
        if kind == "disk":
            o, i = disk[at]
            ctx.fs.arm([dict(op=o, at=i, file="*", kind=dict(write=["ENOSPC", "EIO", "short"], read=["EIO", "EIO", "short"], open=["EMFILE", "EACCES", "EIO"], close=["EIO"] * 3)[o][int(frac * 1e6) % 3], n_bytes=1)])
            try:
                ok, v = ctx.call(sub.fn)
            finally:
                fired = bool(ctx.fs.disarm())
        else:
            sub.raised = False
            ok, v, fired = sub.w.under_fault(flt, sub.fn)
            fired |= sub.raised
        sub.boom[0] = -1
        if ok:
            # it was not reached, or was of no consequence
            with ctx.judging():
                got = sub.show(v)
            v = None
            differ(ctx, want, got, what + " (which returned)")
            continue
        v = None
        ctx.check(fired, "unexpected-error", "%s: failed without a failure" % what)
        failed += 1
        if again:
            ctx.must("assign configuration", sub.w.assign)
        if sub.harm:
            sub.harm(what)
        ok, v = ctx.call(sub.fn)
        ctx.check(ok, "no-recovery", lambda: "%s, repeated: %s: %s" % (what, type(v).__name__, str(v)[:150]))
        with ctx.judging():
            got = sub.show(v)
        v = None
        differ(ctx, want, got, what + ", repeated")
    ctx.nontrivial = failed > 0
    ctx.probe("failures", failed)
    ctx.state(k, plan["op"]["a"] if k == "analysis" else "", kind, plan["chain"], bool(failed))
    ctx.event(k, kind, total, failed, hashlib.sha256(repr(sorted(want.items())).encode()).hexdigest())


def differ(ctx, want, got, what):
    if want != got:
        d = W.differs(want, got)
        ctx.fail("other-result", "%s: other %s" % (what, ", ".join(str(x) for x in d)[:300]))


def shrink(plan):
    yield from W.shrink_world(plan)
    for s in D.shrink_shape(plan["shape"]):
        yield dict(plan, shape=s)
    if plan["prelude"]:
        yield dict(plan, prelude=plan["prelude"][1:])
        yield dict(plan, prelude=plan["prelude"][:-1])
    if len(plan["fracs"]) > 1:
        h = len(plan["fracs"]) // 2
        yield dict(plan, fracs=plan["fracs"][:h])
        yield dict(plan, fracs=plan["fracs"][h:])
        for i in range(len(plan["fracs"])):
            yield dict(plan, fracs=plan["fracs"][:i] + plan["fracs"][i + 1:])
    if plan["chain"]:
        yield dict(plan, chain=False)
