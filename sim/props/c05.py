"""Failures while writing are reported, and do no harm"""
import gc, os, warnings
import numpy as np
from sim import dump as D, sysgen as G, rt
from sim.iokit import *

ID = "C05"
QUICK, THOROUGH, TIMEOUT = 2400, 30000, 120
RULE = ("a run = a history of writes (System.to_file in five formats, Timeslice.to_file, split_trajectory) with a full disk, I/O errors "
        "at open/write/close, short writes or a crash at a seeded raw disk operation, each followed by a retry; the file of a call that "
        "returned is compared with the file written on a healthy disk; non-trivial = a fault fired inside a write")

FMT = ["dump", "gz", "poscar", "poscar_ase", "lammps-data", "extxyz", "slice", "slice_mod", "slice_append", "split"]


def gen(rng, tier):
    spec = G.gen_spec(rng, sizes=rng.choice([("tiny",), ("tiny",), ("mid",)]), kinds=("random", "lattice"))
    shape = D.gen_shape(rng)
    fm = rng.sample(FMT, rng.choice([1, 2, 4]))
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        k = rng.choice(["ENOSPC", "ENOSPC", "EIO", "close", "open", "short", "crash", "interrupt", None])
        op = dict(fmt=rng.choice(fm), name=rng.randrange(2), ts=rng.choice([0, 7]), fault=None, hold=rng.random() < .5,
                  custom=rng.random() < .3, old=rng.choice(["none", "short", "long"]))
        at = int(rng.expovariate(1 / 3.))
        if k in ("ENOSPC", "EIO", "short", "crash"):
            op["fault"] = dict(op="write", kind=k, at=at, n_bytes=rng.choice([0, 1, 10, 60, 10 ** 6]), file="*")
        elif k == "close":
            op["fault"] = dict(op="close", kind="EIO", at=at % 2, file="*")
        elif k == "open":
            op["fault"] = dict(op="open", kind=rng.choice(["EACCES", "ENOSPC", "EMFILE"]), at=at % 3, file="*")
        elif k == "interrupt":
            op["fault"] = dict(op="interrupt", at=1 + int(rng.expovariate(1 / 80.)))
        ops.append(op)
    # small buffers: many raw writes, so that faults land everywhere in the file
    buf = rng.choice([0, 1, 16, 64, 64, 300])
    if any(o["fmt"] == "gz" for o in ops) and buf:
        buf = max(64, buf)        # the header of a gzip file fits into the buffer, as it does in reality
    return dict(spec=spec, shape=shape, ops=ops, buffer=buf, read_chunk=0,
                trace=any((o["fault"] or {}).get("op") == "interrupt" for o in ops))


def run(plan, ctx):
    import pyscal.core as pc, pyscal.trajectory as pt, pyscal.traj_process as ptp
    warnings.simplefilter("ignore")
    cfg = G.make(plan["spec"])
    s = ctx.must("build", cfg.system)
    frames = D.frames_of(plan["shape"])
    with open("t.dump", "w") as f:
        f.write("".join(x.text for x in frames))
    t = ctx.must("open", pt.Trajectory, "t.dump")
    species = D.SYMBOLS[:max(cfg.types)]
    N = len(frames)
    ctx.must("load", t.load, N - 1)
    pristine = ctx.must("pristine", lambda: pt.Trajectory("t.dump"))
    crashed = False

    def call(op, name):
        f = op["fmt"]
        if f in ("dump", "gz"):
            kw = dict(timestep=op["ts"])
            if op["custom"]:
                kw.update(customkeys=["c_v"], customvals=[[i + .5] for i in range(cfg.n)])
            return s.to_file(name, compressed=(f == "gz"), **kw)
        if f == "poscar":
            return s.to_file(name, format="poscar")
        if f == "poscar_ase":
            return s.to_file(name, format="poscar", species=species)
        if f in ("lammps-data", "extxyz"):
            return s.to_file(name, format=f, species=species)
        if f == "slice":
            return pristine[:].to_file(name)
        if f == "slice_mod":
            return t[::-1].to_file(name)
        if f == "slice_append":
            return pristine[:].to_file(name, mode="a")
        if f == "split":
            return ptp.split_trajectory("t.dump")

    def content(op, name):
        """what a reader finds on the disk, by other means than the code under test"""
        f = op["fmt"]
        if f == "gz":
            import gzip
            with gzip.open(name, "rb") as fh:
                return fh.read().decode()
        if f == "split":
            out = {}
            for n in sorted(os.listdir(".")):
                if n.startswith("t.dump.snap"):
                    with open(n) as fh:
                        out[n] = fh.read()
            return out
        with open(name) as fh:
            text = fh.read()
        if f == "lammps-data":
            text = text.split("\n", 1)[1]       # the first line holds a version or date
        return text

    def prepare(op, name):
        f = op["fmt"]
        if f == "split":
            for n in os.listdir("."):
                if n.startswith("t.dump.snap"):
                    os.unlink(n)
            return
        with open(name, "w") as fh:
            if f == "slice_append":
                fh.write(frames[0].text)
            elif op["old"] != "none":
                fh.write("older content\n" * (2 if op["old"] == "short" else 20000))

    def compare(op, name, ref, what):
        with ctx.judging():
            got = content(op, name)
            if op["fmt"] in ("lammps-data",):
                got, ref = got.split(), ref.split()
            ctx.check(got == ref, "incomplete-file", lambda: "%s: %s reported success, %s" % (what, op["fmt"], diff(got, ref)))

    def system_intact():
        with ctx.judging():
            ctx.check(np.array_equal(np.array([a.pos for a in s.atoms]), cfg.pos) and
                      [a.id for a in s.atoms] == cfg.ids and np.array_equal(np.array(s.box, float), cfg.box),
                      "write-changed-system", "after a failed write")

    for op in plan["ops"]:
        f = op["fmt"]
        if f in ("poscar_ase", "lammps-data", "extxyz") and sorted(set(cfg.types)) != list(range(1, len(species) + 1)):
            continue
        suffix = dict(gz=".gz").get(f, "")
        name = "out%d%s" % (op["name"], suffix)
        refname = "ref" + suffix
        prepare(op, refname)
        ret0 = ctx.must("%s on a healthy disk" % f, call, op, refname)
        with ctx.judging():
            ref = content(op, refname)
        prepare(op, name)
        flt = op["fault"]
        held = None
        if flt:
            if flt["op"] == "interrupt":
                ctx.interrupt_after(flt["at"])
            else:
                ctx.fs.arm([flt])
            try:
                ok, v = ctx.call(call, op, name)
            except rt.SimCrash:
                ok, v = False, None
                crashed = True
            fired = ctx.interrupt_off() if flt["op"] == "interrupt" else bool(ctx.fs.disarm())
            ctx.event(f, flt["op"], flt.get("kind"), ok, fired)
            ctx.state(f, flt["op"], flt.get("kind"), ok, fired, op["hold"])
            if fired:
                ctx.nontrivial = True
                ctx.probe("fault_in_" + f)
            if crashed:
                # the process is gone; what is on the disk is looked at by another one
                ctx.fs.dead = False
                v = None
                gc.collect()
                left = None
                try:
                    left = content(op, name)
                except Exception:
                    ctx.probe("unreadable_after_crash")
                if isinstance(left, str) and isinstance(ref, str) and f not in ("gz", "lammps-data"):
                    ctx.check(ref.startswith(left) or left == "" or (op["old"] != "none" and left.startswith("older")),
                              "garbage-after-crash", lambda: "%s: %r is not a prefix of the file" % (f, left[-80:]))
                ctx.event("crash")
                ctx.nontrivial = True
                return
            if ok:
                compare(op, name, ref, "with %s" % flt)
                ctx.check(v == ret0, "wrong-result", "returned %r" % (v,))
                continue
            if not fired:
                ctx.fail("unexpected-error", "%s raised %s: %s" % (f, type(v).__name__, str(v)[:200]))
                continue
            system_intact()
            # the caller keeps the error for a while (or not) and tries again
            # (after an interrupt, that may hit right behind an open, it is let go first)
            held = v if op["hold"] and flt["op"] != "interrupt" else None
            v = None
            if held is None:
                gc.collect()
            if f == "slice_append":
                prepare(op, name)
        if held is not None:
            # other content is written to the same place before the error is let go
            op2 = dict(op, ts=op["ts"] + 1)
            r2 = ctx.must("%s on a healthy disk" % f, call, op2, refname) if f != "slice_append" else None
            if f not in ("slice_append", "split"):
                with ctx.judging():
                    ref = content(op2, refname)
                op = op2
        ret = ctx.must("%s (retry)" % f, call, op, name)
        held = None
        gc.collect()
        compare(op, name, ref, "retry")
        system_intact()
        ctx.event(f, "ok")


def diff(a, b):
    if isinstance(a, dict):
        ks = sorted(set(a) | set(b))
        for k in ks:
            if a.get(k) != b.get(k):
                return "%s: %s" % (k, diff(a.get(k) or "", b.get(k) or ""))
    if isinstance(a, list):
        return "%d of %d fields" % (len(a), len(b))
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "%d of %d characters on the disk, first difference at %d: %r instead of %r" % (len(a), len(b), n, a[n:n + 40], b[n:n + 40])


def shrink(plan):
    for s in G.shrink_spec(plan["spec"]):
        yield dict(plan, spec=s)
    for s in D.shrink_shape(plan["shape"]):
        yield dict(plan, shape=s)
    for i, op in enumerate(plan["ops"]):
        for k, v in (("hold", False), ("custom", False), ("old", "none")):
            if op.get(k) != v:
                yield dict(plan, ops=plan["ops"][:i] + [dict(op, **{k: v})] + plan["ops"][i + 1:])
        if op.get("fault") and op["fault"].get("at", 0) > 0 and op["fault"]["op"] != "interrupt":
            yield dict(plan, ops=plan["ops"][:i] + [dict(op, fault=dict(op["fault"], at=op["fault"]["at"] // 2))] + plan["ops"][i + 1:])
