"""A snapshot is read completely or not at all"""
import gzip, os, warnings
import numpy as np
from sim import dump as D, sysgen as G
from sim.iokit import *

ID = "C06"
QUICK, THOROUGH, TIMEOUT = 800, 30000, 120
RULE = ("a run = a System with a configuration (and neighbors) into which files are read (dump, gz, POSCAR, extxyz; 1-2 clients with their "
        "own systems) while the file is cut off at a seeded byte, has a corrupt byte in its compressed data, a damaged field, misses a "
        "column, disappears or fails with open/read errors, short reads or an interrupt; each failure is followed by reading the healthy "
        "file; non-trivial = at least one read failed")

FMT = ["dump", "dump", "gz", "gz", "gzflag", "poscar", "extxyz", "multi"]


def gen(rng, tier):
    clients = rng.choice([1, 1, 2])
    cfgs = [G.gen_spec(rng, sizes=rng.choice([("tiny",), ("tiny", "mid")])) for _ in range(2)]
    shapes = [D.gen_shape(rng) for _ in range(2)]
    for s in shapes:
        s["natoms"] = rng.choice([1, 2, 3, 5, 8, 40, 210])
        s["nframes"] = 1
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        op = dict(c=rng.randrange(clients), fmt=rng.choice(FMT), src=rng.randrange(2), custom=rng.random() < .3,
                  neigh=rng.choice([None, "cutoff", "voronoi"]), seed=rng.getrandbits(20), fault=None, damage=None)
        if rng.random() < .6:
            op["damage"] = rng.choice(["cut", "cut", "cut", "cutline", "flip", "field", "column", "gone", "empty"])
            op["at"] = rng.random()
        if rng.random() < .4:
            op["fault"] = gen_read_fault(rng, 1)
        ops.append(op)
    plan = dict(cfgs=cfgs, shapes=shapes, clients=clients, ops=ops, schedule=gen_schedule(rng, clients) if clients > 1 else [],
                trace=clients > 1 or any((o["fault"] or {}).get("op") == "interrupt" for o in ops))
    plan.update(gen_io_knobs(rng))
    if plan["read_chunk"] == 1:
        plan["read_chunk"] = 7
    return plan


def run(plan, ctx):
    import pyscal.core as pc
    from ase import Atoms
    from ase.io import write as asewrite
    warnings.simplefilter("ignore")
    nc = plan["clients"]
    frames = [D.frames_of(s)[0] for s in plan["shapes"]]
    cfgs = [G.make(sp) for sp in plan["cfgs"]]

    def healthy(op, name):
        """bytes of the complete file, and how to judge a system that shows it"""
        f = op["fmt"]
        if f in ("dump", "gz", "gzflag", "multi"):
            fr = frames[op["src"]]
            keys = list(fr.extra) if op["custom"] and fr.extra else None
            text = fr.text
            if f == "multi":
                text = text + frames[1 - op["src"]].text
            data = text.encode()
            if f in ("gz", "gzflag"):
                data = gzip.compress(data, mtime=0)
            kw = dict(customkeys=keys)
            if f == "gzflag":
                kw["compressed"] = True
            return data, kw, lambda s: D.system_differs(s, fr, keys)
        cfg = cfgs[op["src"]]
        sym = [D.SYMBOLS[t - 1] for t in cfg.types]
        order = sorted(range(cfg.n), key=lambda i: sym[i]) if f == "poscar" else list(range(cfg.n))
        at = Atoms([sym[i] for i in order], positions=cfg.pos[order], cell=cfg.box, pbc=True)
        fmt = dict(poscar="vasp", extxyz="extxyz")[f]
        asewrite(name, at, format=fmt)
        with open(name, "rb") as fh:
            data = fh.read()

        def differs(s):
            atoms = s.atoms
            if len(atoms) != cfg.n or s.natoms != cfg.n:
                return "%d atoms instead of %d" % (len(atoms), cfg.n)
            if [str(a.custom.get("species")) for a in atoms] != [sym[i] for i in order]:
                return "species"
            if not D.near(np.array(s.box, float), cfg.box, 1e-6):
                return "box %s instead of %s" % (np.array(s.box).tolist(), cfg.box.tolist())
            if not D.near([a.pos for a in atoms], cfg.pos[order], 1e-6):
                return "positions"
            return None
        return data, dict(format=f), differs

    def damaged(op, data, kw):
        """-> data on the disk (None: no file), may the read succeed?, what has to fail"""
        f, k = op["fmt"], op["damage"]
        binary = f in ("gz", "gzflag")
        n = len(data)
        if k == "gone":
            return None, False
        if k == "empty":
            return b"", False
        if k == "cut":
            m = int(op["at"] * n)
            m = min(m, n - 1)
            if binary:
                return data[:m], False
            first = frames[op["src"]].text.encode() if f == "multi" else data
            if m >= len(first):
                return data[:m], True
            # what is cut within the last field of the last line cannot be seen
            body = first.rstrip(b"\n")
            last = body.rfind(b"\n") + 1
            return data[:m], (None if m > last else False)
        if k == "cutline":
            if binary:
                return data[:n // 2], False
            lines = data.split(b"\n")
            total = len((frames[op["src"]].text if f == "multi" else data.decode()).rstrip("\n").split("\n"))
            m = int(op["at"] * total)
            return b"\n".join(lines[:m]) + (b"\n" if m else b""), False
        if k == "flip" and binary:
            m = 10 + int(op["at"] * (n - 10))
            m = min(m, n - 1)
            d = bytearray(data)
            d[m] ^= 1 << (op["seed"] % 8)
            # a flip in the unused bits of the last block changes nothing
            try:
                same = gzip.decompress(bytes(d)) == gzip.decompress(data)
            except Exception:
                same = False
            return bytes(d), same
        if k == "field" and f in ("dump", "multi"):
            fr = frames[op["src"]]
            lines = list(fr.lines)
            c = [fr.cols.index(x) for x in ("id", "type", "xs" if fr.scaled else "x", "zs" if fr.scaled else "z")][op["seed"] % 4]
            i = 9 + int(op["at"] * fr.n)
            row = lines[i].split()
            row[c] = ["nonsense", "", "1.2.3"][op["seed"] % 3]
            if row[c] == "":
                del row[c:]
            lines[i] = " ".join(row) + "\n"
            return "".join(lines).encode(), False
        if k == "column" and f == "dump":
            fr = frames[op["src"]]
            drop = ["id", "type", "xs" if fr.scaled else "x", "ys" if fr.scaled else "y"][op["seed"] % 4]
            c = fr.cols.index(drop)
            lines = list(fr.lines)
            lines[8] = "ITEM: ATOMS " + " ".join(x for x in fr.cols if x != drop) + "\n"
            for i in range(9, len(lines)):
                row = lines[i].split()
                del row[c]
                lines[i] = " ".join(row) + "\n"
            return "".join(lines).encode(), False
        if k == "column" and kw.get("customkeys") is not None:
            kw["customkeys"] = kw["customkeys"] + ["absent"]
            return data, False
        return data, True

    def snapshot(s):
        return dict(box=np.array(s.box, float).tolist(), natoms=s.natoms,
                    atoms=[(list(a.pos), a.id, a.type, sorted((str(k), str(v)) for k, v in a.custom.items()),
                            list(a.neighbors), list(a.neighbor_distance), a.volume) for a in s.atoms])

    state = {}

    def start(c, op):
        if c not in state:
            cfg = G.make(plan["cfgs"][c % 2])
            state[c] = ctx.must("build", cfg.system)
        s = state[c]
        if op["neigh"] == "cutoff":
            box = np.array(s.box, float)
            w = G.widths(box).min()
            d = (abs(np.linalg.det(box)) / s.natoms) ** (1 / 3.)
            # too many neighbors are refused
            ctx.call(lambda: s.find_neighbors(method="cutoff", cutoff=min(1.4 * d, .45 * w)))
        elif op["neigh"] == "voronoi":
            ctx.call(lambda: s.find_neighbors(method="voronoi"))
        return s

    def body(c, op):
        s = start(c, op)
        with ctx.judging():
            before = snapshot(s)
        f = op["fmt"]
        name = "in%d" % c + dict(gz=".gz").get(f, "")
        data, kw, differs = healthy(op, name)
        kw0 = dict(kw)
        disk, mayread = (data, True) if op["damage"] is None else damaged(op, data, kw)
        if disk is None:
            if os.path.exists(name):
                os.unlink(name)
        else:
            with open(name, "wb") as fh:
                fh.write(disk)
        ctx.state(f, op["damage"], mayread, (op["fault"] or {}).get("op"), op["neigh"], s.natoms < 200, len(data) < 2000)
        flt = op["fault"]
        fired = False
        if flt:
            if flt["op"] == "interrupt":
                ctx.interrupt_after(flt["at"])
            else:
                ctx.fs.arm([flt])
        ok, v = ctx.call(s.read_inputfile, name, **kw)
        err = None if ok else "%s: %s" % (type(v).__name__, str(v)[:150])
        v = None
        if flt:
            fired = ctx.interrupt_off() if flt["op"] == "interrupt" else bool(ctx.fs.disarm())
        what = "%s with %s, %s" % (f, op["damage"], flt if fired else None)
        ctx.event(f, op["damage"], ok, fired)
        with ctx.judging():
            if ok:
                if mayread is None:
                    ctx.probe("last_line_torn")
                else:
                    ctx.check(mayread, "read-incomplete-file", lambda: "%s was accepted" % what)
                    d = differs(s)
                    ctx.check(d is None, "wrong-snapshot", lambda: "%s: %s" % (what, d))
            else:
                ctx.nontrivial = True
                ctx.probe("failed_read")
                if mayread and not fired:
                    ctx.fail("unexpected-error", "%s raised %s" % (what, err))
                if not (fired and flt["op"] == "interrupt"):
                    after = snapshot(s)
                    ctx.check(after == before, "failed-read-changed-system", lambda: "%s (%s): %s" % (what, err, first_diff(before, after)))
        with open(name, "wb") as fh:
            fh.write(data)
        ctx.must("read_inputfile of %s after the failure" % f, s.read_inputfile, name, **kw0)
        with ctx.judging():
            d = differs(s)
            ctx.check(d is None, "wrong-snapshot", lambda: "%s read again: %s" % (f, d))
        ctx.event("again", "ok")

    run_clients(ctx, plan, body)


def first_diff(a, b):
    for k in a:
        if a[k] != b[k]:
            if k == "atoms":
                for i, (x, y) in enumerate(zip(a[k], b[k])):
                    if x != y:
                        return "atom %d: %s -> %s" % (i, str(x)[:150], str(y)[:150])
            return "%s: %s -> %s" % (k, str(a[k])[:150], str(b[k])[:150])
    return "nothing"


def shrink(plan):
    if plan["clients"] > 1:
        yield dict(plan, clients=1, schedule=[])
    for i in range(2):
        for s in G.shrink_spec(plan["cfgs"][i]):
            yield dict(plan, cfgs=[s if j == i else x for j, x in enumerate(plan["cfgs"])])
        for s in D.shrink_shape(plan["shapes"][i]):
            yield dict(plan, shapes=[s if j == i else x for j, x in enumerate(plan["shapes"])])
    for i, op in enumerate(plan["ops"]):
        for k, v in (("neigh", None), ("custom", False), ("damage", None)):
            if op.get(k) != v:
                yield dict(plan, ops=plan["ops"][:i] + [dict(op, **{k: v})] + plan["ops"][i + 1:])
