"""Operations, failed ones included, leave nothing behind"""
import gc, os, random, signal, sys, tempfile, threading, types, warnings
import numpy as np
from sim import sysgen as G, world as W, dump as D, rt
from sim.iokit import gen_read_fault
from sim.props import c08

ID = "C20"
QUICK, THOROUGH, TIMEOUT = 450, 20000, 180
RULE = ("a run = a cycle of operations (analyses, configurations, files written, read and split, trajectories opened, loaded, converted and unloaded, "
        "energies, objects made and dropped), with failing allocations, callbacks, disks, LAMMPS commands and interrupts at seeded places, that is repeated: open files, memory of the "
        "extension modules, Python objects, files on the disk and settings of the process may not grow or change from cycle to cycle; non-trivial = a fault "
        "fired or a file was opened in a cycle")
REAL = ["all of pyscal's Python code", "pyscal's C++ extension modules", "ase"]
STUB = c08.STUB

FORMATS = ["dump", "gz", "poscar", "extxyz", "lammps-data"]


def gen(rng, tier):
    specs = W.gen_world(rng, nspecs=(1, 2), sizes=rng.choice([("tiny",), ("tiny",), ("tiny",), ("tiny", "small")]), big=0)
    shape = D.gen_shape(rng)
    if rng.random() < .3:
        # every analysis, failing at many places
        return dict(specs=specs[:1], shape=shape, trace=False, buffer=0, read_chunk=0, ops=[
            dict(k="sweep", a=a, seed=rng.getrandbits(24), kind=rng.choice(["alloc", "interrupt"]), fracs=[round(rng.random(), 4) for _ in range(rng.choice([2, 4]))])
            for a in rng.sample(W.ANALYSES, rng.choice([4, 6, 9]))])
    analyses = rng.sample(W.ANALYSES, rng.choice([1, 3, 8]))
    kinds = rng.sample(["analysis", "fail", "write", "read", "traj", "kept", "split", "energy", "objects", "fields", "cubic", "lattice", "change"], rng.choice([1, 2, 4, 8]))
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        k = rng.choice(kinds)
        op = dict(k=k, seed=rng.getrandbits(24))
        if k in ("analysis", "fail"):
            op["a"] = rng.choice(analyses)
            if k == "fail":
                op["fault"] = W.gen_fault(rng, 1)
        elif k == "energy":
            op["order"] = rng.getrandbits(16)
            u = rng.random()
            if u < .4:
                op["fault"] = dict(op="lammps", at=rng.randrange(12), kind=rng.choice(["Exception", "KeyboardInterrupt", "MemoryError"]))
            elif u < .7:
                op["fault"] = gen_disk(rng)
        elif k == "change":
            op["h"] = rng.choice(["config", "move", "moveall", "box", "add", "types"])
        else:
            op["fmt"] = rng.choice(FORMATS)
            op["what"] = rng.choice(["load", "system", "dict", "ase", "file", "unload", "slice", "bad"])
            if rng.random() < .5:
                op["fault"] = gen_disk(rng) if k in ("write", "split") or rng.random() < .3 else gen_read_fault(rng, 1)
            op["hurt"] = rng.choice([None, None, "cut", "text", "column", "missing"]) if k == "read" else None
        ops.append(op)
    trace = any((op.get("fault") or {}).get("op") == "interrupt" for op in ops)
    return dict(specs=specs, shape=shape, ops=ops, trace=trace, buffer=rng.choice([0, 0, 64, 300]), read_chunk=rng.choice([0, 0, 64, 500]))


def gen_disk(rng):
    k = rng.choice(["ENOSPC", "EIO", "close", "open", "short"])
    at = int(rng.expovariate(1 / 2.))
    if k == "close":
        return dict(op="close", kind="EIO", at=at % 2, file="*")
    if k == "open":
        return dict(op="open", kind=rng.choice(["EACCES", "ENOSPC", "EMFILE"]), at=at % 3, file="*")
    return dict(op="write", kind=k, at=at, n_bytes=rng.choice([0, 1, 60]), file="*")


class Cycle:
    def __init__(self, plan, ctx):
        import pyscal.trajectory as pt
        self.plan, self.ctx = plan, ctx
        self.settings = {c: {} for c in range(-1, 1)}
        sys.modules["lammps"] = c08.Lammps(ctx, self.settings)
        self.w = W.World(ctx, plan["specs"])
        self.frames = D.frames_of(plan["shape"])
        with open("t.dump", "w") as f:
            f.write("".join(x.text for x in self.frames))
        with open("tail.dump", "w") as f:
            f.write("".join(x.text for x in self.frames)[:-3])
        self.kept = ctx.must("open", pt.Trajectory, "t.dump")
        self.outcome = []
        # (a name that is put together would stay in caches of the interpreter)
        self.do = {k[3:]: getattr(self, k) for k in dir(self) if k.startswith("do_")}

    def attempt(self, op, fn):
        """run it under its fault; what it returns and raises is dropped, its files have to be closed"""
        ctx, flt = self.ctx, op.get("fault")
        before = ctx.fs.open_files
        if flt and flt["op"] in ("alloc", "interrupt", "callback"):
            ok, v, fired = self.w.under_fault(flt, fn)
        else:
            if flt and flt["op"] == "lammps":
                fn()
                return
            if flt:
                ctx.fs.arm([flt])
            try:
                ok, v = ctx.call(fn)
            finally:
                fired = bool(flt and ctx.fs.disarm())
            if not ok:
                v = type(v).__name__
        if not ok:
            gc.collect()
        if fired:
            self.fired = True
        ctx.check(ctx.fs.open_files == before, "open-file", lambda: "%s %s: %d more open files after it %s" % (
            op["k"], op.get("what") or op.get("a") or op.get("fmt"), ctx.fs.open_files - before, "returned" if ok else "failed (%s)" % v))
        self.outcome.append((op["k"], ok, v if not ok else None))
        return ok

    def run(self):
        """one cycle"""
        ctx, w, plan = self.ctx, self.w, self.plan
        self.outcome = []
        self.fired = False
        w.history(dict(k="config", spec=0, seed=1))
        for op in plan["ops"]:
            self.do[op["k"]](op)
        # the System is the same at the end of every cycle
        w.history(dict(k="config", spec=0, seed=1))
        self.last = self.outcome
        gc.collect()

    # -- operations ----------------------------------------------------------
    def do_analysis(self, op):
        if self.w.cfg.n > 1500 and op["a"] in W.HEAVY:
            return
        flt = op.get("fault")
        left = [flt["at"] if flt and flt["op"] == "callback" else -1]

        def cb(atom):
            left[0] -= 1
            if left[0] == -1:
                self.ctx.fault_fired("callback-exception")
                raise rt.Injected("callback")
            return atom.type == 1
        ok = self.attempt(op, lambda: self.w.run_analysis(op["a"], op["seed"], cb))
        if not ok:
            self.ctx.must("assign configuration", self.w.assign)

    do_fail = do_analysis

    def do_sweep(self, op):
        """failures at places spread over all of an analysis"""
        ctx = self.ctx
        if self.w.cfg.n > 1500 and op["a"] in W.HEAVY:
            return
        cb = lambda atom: atom.type == 1
        fn = lambda: self.w.run_analysis(op["a"], op["seed"], cb)
        ctx.alloc.reset_count()
        (ok, v), lines = ctx.lines_of(fn)
        total = lines if op["kind"] == "interrupt" else ctx.alloc.count_of("csystem")
        ok = ok or type(v).__name__
        v = None
        self.outcome.append((op["k"], op["a"], ok))
        check_process(ctx, self.first)
        for f in op["fracs"] if total else []:
            at = min(int(f * total), total - 1)
            if not self.attempt(dict(k="sweep", a=op["a"], fault=dict(op=op["kind"], at=at + (op["kind"] == "interrupt"))), fn):
                ctx.must("assign configuration", self.w.assign)
            check_process(ctx, self.first)

    def do_change(self, op):
        self.w.history(dict(k=op["h"], seed=op["seed"], spec=op["seed"] % 2))

    def do_write(self, op):
        s, cfg, f = self.w.s, self.w.cfg, op["fmt"]
        name = "w" + (".gz" if f == "gz" else "." + f)
        species = D.SYMBOLS[:max(cfg.types)]
        if f in ("dump", "gz"):
            self.attempt(op, lambda: s.to_file(name, compressed=f == "gz", customkeys=["c_v"], customvals=[[i + .5] for i in range(cfg.n)]))
        elif f == "poscar":
            self.attempt(op, lambda: s.to_file(name, format="poscar"))
        else:
            self.attempt(op, lambda: s.to_file(name, format=f, species=species))

    def do_read(self, op):
        ctx, s, cfg, f = self.ctx, self.w.s, self.w.cfg, op["fmt"]
        if f in ("extxyz", "lammps-data"):
            f = "dump"
        name = "r." + f + (".gz" if f == "gz" else "")
        if not os.path.exists(name):
            if f == "poscar":
                ctx.must("write", cfg.system().to_file, name, format="poscar")
            else:
                ctx.must("write", cfg.system().to_file, name, compressed=f == "gz")
            if f == "dump" and op["hurt"]:
                with open(name) as fh:
                    t = fh.read()
                t = dict(cut=t[:len(t) * 2 // 3], text=t[:-4] + "ab\n", column=t.replace(" type ", " kind "), missing=t)[op["hurt"]]
                with open(name, "w") as fh:
                    fh.write(t)
            if op["hurt"] == "missing":
                os.unlink(name)
        self.attempt(op, lambda: s.read_inputfile(name, format="poscar" if f == "poscar" else "lammps-dump", compressed=f == "gz"))

    def do_traj(self, op):
        import pyscal.trajectory as pt
        name = ["t.dump", "tail.dump", "nothing.dump"][op["seed"] % 5 // 2]

        def work():
            t = pt.Trajectory(name)
            self.use(t, op)
        self.attempt(op, work)

    def do_kept(self, op):
        self.attempt(op, lambda: self.use(self.kept, op))
        # what was loaded is dropped
        for i in range(len(self.frames)):
            self.ctx.must("unload", self.kept.unload, i)

    def use(self, t, op):
        n = t.nblocks
        i = op["seed"] % n
        what = op["what"]
        if what == "load":
            t.load(i)
        elif what == "unload":
            t.load(i)
            t.unload(i)
        elif what == "system":
            [s.natoms for s in t[i:].to_system()]
        elif what == "dict":
            t[i:].to_dict()
        elif what == "ase":
            t[i:].to_ase(species=D.SYMBOLS[:4])
        elif what == "file":
            t.load(i)
            t[i:].to_file("u.dump")
        elif what == "slice":
            sl = t[i:] + t[:1]
            sl.to_system()
        elif what == "bad":
            t[n + 3].to_system()

    def do_split(self, op):
        import pyscal.traj_process as ptp
        # the files of the last split go, if there were any
        for n in sorted(os.listdir(".")):
            if n.startswith("t.dump.snap"):
                os.unlink(n)
        self.attempt(op, lambda: ptp.split_trajectory("t.dump"))
        for n in sorted(os.listdir(".")):
            if n.startswith("t.dump.snap"):
                os.unlink(n)

    def do_energy(self, op):
        s = self.w.s
        st = self.settings[-1]
        st.clear()
        flt = op.get("fault")
        st.update(order=op["order"])
        if flt and flt["op"] == "lammps":
            st["fault"] = flt

        def work():
            s.calculate_energy(species=D.SYMBOLS[:max(self.w.cfg.types)], pair_style="eam", pair_coeff="* * A", mass=1.0)
        if flt and flt["op"] == "lammps":
            self.attempt(dict(op, fault=None), work)
            self.fired |= bool(st.get("fired"))
        else:
            self.attempt(op, work)

    def do_objects(self, op):
        from pyscal.core import System
        cfg = self.w.cfg

        def work():
            s = cfg.system()
            a = s.atoms
            s2 = System()
            s2.box = cfg.box.tolist()
            s2.atoms = a
            s2.add_atoms(a[:2])
            s2.find_neighbors(method="number", nmax=3)
            [x.neighbors for x in s2.atoms]
            s2.to_ase(species=D.SYMBOLS[:max(cfg.types)])
        self.attempt(dict(op, fault=None), work)

    def do_fields(self, op):
        """everything that is shown is shown once more, and put back"""
        s = self.w.s

        def work():
            W.show_system(s)
            for i in range(min(20, s.natoms)):
                a = s.get_atom(i)
                a.custom = dict(a=1, b=[2, 3])
                a.neighbors = [0, 1]
                a.allq = [.1] * 11
                s.set_atom(a)
            s.get_qvals([4, 6])
            s.get_number_from_bond(s.get_atom(0), s.get_atom(1)) if hasattr(s, "get_number_from_bond") else None
        self.attempt(dict(op, fault=None), work)

    def do_cubic(self, op):
        self.attempt(dict(op, fault=None), lambda: self.w.s.extract_cubic_box(repeat=(1, 1, 1)) if self.w.cfg.n < 60 else None)

    def do_lattice(self, op):
        import pyscal.crystal_structures as pcs
        names = ["bcc", "fcc", "hcp", "diamond", "a15", "l12", "b2", "nothing"]
        self.attempt(dict(op, fault=None), lambda: pcs.make_crystal(names[op["seed"] % 8], lattice_constant=3.2, repetitions=[2, 2, 2], noise=.01))


def files(root):
    out = []
    for d, _, fs in os.walk(root):
        out += [os.path.relpath(os.path.join(d, f), root) for f in fs]
        out.append(os.path.relpath(d, root))
    return sorted(out)


def process_state():
    return dict(cwd=os.getcwd(), numpy_errors=sorted(np.geterr().items()), numpy_print=sorted((k, str(v)) for k, v in np.get_printoptions().items()),
                warnings=[str(f) for f in warnings.filters], recursion=sys.getrecursionlimit(), threads=threading.active_count(), env=sorted(os.environ.items()),
                path=list(sys.path), umask=umask(), excepthook=repr(sys.excepthook), sigint=repr(signal.getsignal(signal.SIGINT)),
                tempdir=tempfile.tempdir, streams=[id(sys.stdout), id(sys.stderr)], numpy_call=repr(np.geterrcall()))


def check_process(ctx, first):
    st = process_state()
    for key in first:
        ctx.check(st[key] == first[key], "process-state", lambda: "%s was %s and is %s" % (key, str(first[key])[:150], str(st[key])[:150]))


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def run(plan, ctx):
    warnings.simplefilter("ignore")
    tempfile.tempdir = os.path.join(ctx.root, "tmp")
    os.mkdir(tempfile.tempdir)
    cyc = Cycle(plan, ctx)
    first = cyc.first = process_state()
    if plan["ops"][0]["k"] == "sweep":
        cyc.run()
        ctx.check(ctx.fs.open_files == 0, "open-file", "%d open files" % ctx.fs.open_files)
        ctx.nontrivial = cyc.fired
        for o in cyc.last:
            ctx.state(*o)
            ctx.event(*o)
        return
    total, more = 6, 8
    seen = np.zeros((total + more, 9), int)        # nothing of this itself grows
    for k in range(total + more):
        if k == total and not (np.diff(seen[2:total, 3]) > 60).all():
            break               # (numpy keeps some blocks for later: a real leak goes on)
        cyc.run()
        cyc.outcome = []
        if k in (0, total - 1):
            now = files(ctx.root)
            there = now if k == 0 else there
            ctx.check(now == there, "left-file", lambda: "%s" % sorted(set(now) ^ set(there))[:5])
            now = None
        check_process(ctx, first)
        gc.collect()
        seen[k, 4] = len(os.listdir("/proc/self/fd"))
        seen[k, 5] = ctx.fs.open_files
        seen[k, 0], seen[k, 1] = ctx.alloc.live()
        seen[k, 6:] = ctx.alloc.voro()
        seen[k, 2] = len(gc.get_objects())
        seen[k, 3] = sys.getallocatedblocks()
    ctx.check(seen[total - 1, 5] == seen[0, 5] and seen[total - 1, 4] == seen[1, 4], "open-file",
              "%d more open files after cycle %d than after cycle 2" % (seen[total - 1, 4] - seen[1, 4], total))
    if (np.diff(seen[2:total, 8]) > 0).all() and (np.diff(seen[2:total, 7]) > 0).all():
        # voro++ itself was refused memory in every cycle, and kept some: that is one thing, what pyscal keeps another
        seen[:, :2] -= seen[:, 6:8]
        ctx.fail("grows-voro", "%s blocks of memory that voro++ asked for, and was refused one of, more in each of cycles 4 to %d" % (
            np.diff(seen[2:total, 7]).tolist(), total))
    for j, key, what in ((1, "blocks", "blocks of memory of the extension modules"), (0, "memory", "bytes of memory of the extension modules"), (2, "objects", "Python objects")):
        d = np.diff(seen[2:total, j])
        if (d > 0).all():
            ctx.fail("grows-" + key, "%s: %s more in each of cycles 4 to %d" % (what, d.tolist(), total))
    if seen[total, 3] and (np.diff(seen[2:, 3]) > 60).all():
        ctx.fail("grows-python", "more blocks of memory of Python in each of cycles 4 to %d" % (total + more))
    outcomes = [cyc.last]
    ctx.nontrivial = cyc.fired or any(o[0] in ("write", "read", "traj", "kept", "split", "energy") for o in outcomes[-1])
    ctx.probe("cycles", total)
    for o in outcomes[-1]:
        ctx.state(*o)
        ctx.event(*o)
    ctx.event("left", there)


def shrink(plan):
    yield from W.shrink_world(plan)
    for s in D.shrink_shape(plan["shape"]):
        yield dict(plan, shape=s)
    for i, op in enumerate(plan["ops"]):
        if len(plan["ops"]) > 1:
            yield dict(plan, ops=plan["ops"][:i] + plan["ops"][i + 1:])
        if len(op.get("fracs", ())) > 1:
            for f in op["fracs"]:
                yield dict(plan, ops=plan["ops"][:i] + [dict(op, fracs=[f])] + plan["ops"][i + 1:])
        if op.get("fault"):
            yield dict(plan, ops=plan["ops"][:i] + [dict(op, fault=None)] + plan["ops"][i + 1:])
