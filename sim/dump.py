"""Reference side of LAMMPS dump files: seeded frames, their text, and checks that
objects handed out by the code under test show exactly one given frame."""
import random
import numpy as np

SYMBOLS = ["Al", "Cu", "Fe", "Ni"]


class Frame:
    """one frame of a dump file, kept as numbers and as the lines of the file"""

    def __init__(self, timestep, ids, types, pos, lo, hi, tilt=None, extra=None, order=None, scaled=False,
                 fmt="%.8g", boxfmt="%.10g"):
        self.boxfmt = boxfmt
        self.timestep, self.ids, self.types = timestep, list(ids), list(types)
        self.lo, self.hi, self.tilt, self.scaled = list(lo), list(hi), tilt, scaled
        self.extra = dict(extra or {})
        self.n = len(self.ids)
        cols = ["id", "type"] + (["xs", "ys", "zs"] if scaled else ["x", "y", "z"]) + list(self.extra)
        if order:
            cols = [cols[i] for i in sorted(range(len(cols)), key=lambda i: order[i % len(order)])]
        self.cols = cols
        self.text_pos = [[fmt % v for v in p] for p in pos]
        self.raw_pos = np.array([[float(v) for v in p] for p in self.text_pos])
        self.lines = self._lines()
        self.text = "".join(self.lines)

    def bounds(self):
        if self.tilt is None:
            return [[float(self.boxfmt % v) for v in b] for b in zip(self.lo, self.hi)]
        xy, xz, yz = self.tilt
        xlo = self.lo[0] + min(0, xy, xz, xy + xz)
        xhi = self.hi[0] + max(0, xy, xz, xy + xz)
        ylo = self.lo[1] + min(0, yz)
        yhi = self.hi[1] + max(0, yz)
        return [[float(self.boxfmt % v) for v in b] for b in ([xlo, xhi, xy], [ylo, yhi, xz], [self.lo[2], self.hi[2], yz])]

    def _lines(self):
        out = ["ITEM: TIMESTEP\n", "%d\n" % self.timestep, "ITEM: NUMBER OF ATOMS\n", "%d\n" % self.n]
        out.append("ITEM: BOX BOUNDS pp pp pp\n" if self.tilt is None else "ITEM: BOX BOUNDS xy xz yz pp pp pp\n")
        for b in self.bounds():
            out.append(" ".join(self.boxfmt % v for v in b) + "\n")
        out.append("ITEM: ATOMS " + " ".join(self.cols) + "\n")
        for i in range(self.n):
            vals = dict(id=str(self.ids[i]), type=str(self.types[i]))
            for c, k in enumerate("xyz"):
                vals[k] = vals[k + "s"] = self.text_pos[i][c]
            for k, v in self.extra.items():
                vals[k] = v[i]
            out.append(" ".join(vals[c] for c in self.cols) + "\n")
        return out

    def box(self):
        l = [h - o for h, o in zip(self.hi, self.lo)]
        if self.tilt is None:
            return np.diag(l).astype(float)
        xy, xz, yz = self.tilt
        return np.array([[l[0], 0, 0], [xy, l[1], 0], [xz, yz, l[2]]], dtype=float)

    def positions(self):
        """positions up to one common shift by the origin of the box"""
        if self.scaled:
            return self.raw_pos @ self.box()
        return self.raw_pos


def gen_frames(seed, nframes, natoms, tri=False, scaled=False, extra=0, order=False, vary_box=True,
               shuffle_ids=False, ntypes=2, neg=False, style=None):
    """frames in which every number is unique, so that every value read can be
    attributed to one atom of one frame"""
    r = random.Random(seed)
    frames = []
    ts = r.randrange(0, 1000)
    perm = [r.random() for _ in range(12)] if order else None
    dg = 3 if style is None else 12          # digits, as codes with other formats than LAMMPS' default write them
    big = 150. if style == "big" else 1.
    fmt = dict(exp="%.12e", digits="%.15g", big="%.12g").get(style, "%.8g")
    boxfmt = dict(exp="%.16e", digits="%.16g", big="%.16g").get(style, "%.10g")
    lo = [0.0, 0.0, 0.0] if not neg else [round(big * r.uniform(-3, 3), dg) for _ in range(3)]
    hi = [l + round(big * r.uniform(6, 12), dg) for l in lo]
    tilt = [round(big * r.uniform(-2, 2), dg) for _ in range(3)] if tri else None
    uniq = 0
    for f in range(nframes):
        ts += r.randrange(1, 500)
        if vary_box and f:
            hi = [h + round(big * r.uniform(-0.2, 0.2), dg) for h in hi]
        ids = list(range(1, natoms + 1))
        if style == "big":
            ids = [i * 1000003 for i in ids]
        if shuffle_ids:
            r.shuffle(ids)
        types = [1 + (i * 7 + f) % ntypes for i in range(natoms)]
        r.shuffle(types)
        for k in range(min(ntypes, natoms)):
            types[k] = k + 1
        pos = []
        for i in range(natoms):
            p = []
            for c in range(3):
                uniq += 1
                u = r.random()
                v = u if scaled else lo[c] + u * (hi[c] - lo[c])
                if style == "exp" and r.random() < .2:
                    v = lo[c] + 1e-9 * u
                p.append(round(v, 4) + uniq * 1e-7 if style is None else v)
            pos.append(p)
        ex = {}
        for k in range(extra):
            name = ["vx", "fx", "c_pe", "mass"][k]
            ex[name] = [("%.6f" if style is None else fmt) % (r.uniform(-5, 5) * r.choice([1, 1, big, 1e-7 if style == "exp" else 1]))
                        for _ in range(natoms)]
        frames.append(Frame(ts, ids, types, pos, lo, hi, tilt, ex, perm, scaled, fmt, boxfmt))
    return frames


def parse_dump(text):
    """independent parser: list of dict(timestep, n, header, box, cols, rows)"""
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    out, i = [], 0
    while i < len(lines):
        if lines[i].strip() != "ITEM: TIMESTEP":
            raise ValueError("line %d: expected ITEM: TIMESTEP, found %r" % (i, lines[i][:60]))
        ts = int(lines[i + 1])
        if lines[i + 2].strip() != "ITEM: NUMBER OF ATOMS":
            raise ValueError("line %d: no NUMBER OF ATOMS" % (i + 2))
        n = int(lines[i + 3])
        if not lines[i + 4].startswith("ITEM: BOX BOUNDS"):
            raise ValueError("line %d: no BOX BOUNDS" % (i + 4))
        box = [[float(v) for v in lines[i + 5 + k].split()] for k in range(3)]
        head = lines[i + 8].split()
        if head[:2] != ["ITEM:", "ATOMS"]:
            raise ValueError("line %d: no ATOMS" % (i + 8))
        rows = [lines[i + 9 + k].split() for k in range(n)]
        for k, row in enumerate(rows):
            if len(row) != len(head) - 2:
                raise ValueError("line %d: %d columns, header has %d" % (i + 9 + k, len(row), len(head) - 2))
        out.append(dict(timestep=ts, n=n, boxhead=lines[i + 4].split()[3:], box=box, cols=head[2:], rows=rows))
        i += 9 + n
    return out


# ---------------------------------------------------------------------------
# what objects handed out by pyscal must show
# ---------------------------------------------------------------------------
def near(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def shift_ok(got, ref, frame, tol=1e-9):
    """equal, or all shifted by the (negative) origin of the box"""
    got, ref = np.asarray(got, float), np.asarray(ref, float)
    if got.shape != ref.shape:
        return False
    lo = np.asarray(frame.lo, float)
    return any(near(got, ref + s, tol) for s in (0 * lo, -lo, lo))


def system_differs(sys, frame, customkeys=None, tol=1e-9):
    """None if the System shows exactly this frame, else what differs"""
    atoms = sys.atoms
    if len(atoms) != frame.n or sys.natoms != frame.n:
        return "%d atoms (natoms=%d), the frame has %d" % (len(atoms), sys.natoms, frame.n)
    if [a.id for a in atoms] != frame.ids:
        return "ids %s instead of %s" % ([a.id for a in atoms], frame.ids)
    if [int(a.type) for a in atoms] != frame.types:
        return "types %s instead of %s" % ([a.type for a in atoms], frame.types)
    if not near(np.array(sys.box, float), frame.box(), tol):
        return "box %s instead of %s" % (np.array(sys.box).tolist(), frame.box().tolist())
    got = np.array([a.pos for a in atoms])
    if not shift_ok(got, frame.positions(), frame, tol):
        return "positions %s instead of %s" % (got.tolist()[:3], frame.positions().tolist()[:3])
    for k in customkeys or ():
        v = [a.custom.get(k) for a in atoms]
        w = frame.extra[k]
        if any(x is None for x in v) or not near([float(x) for x in v], [float(x) for x in w], tol):
            return "custom values %s %s instead of %s" % (k, v[:4], w[:4])
    return None


def ase_differs(at, frame, species, tol=1e-9):
    if len(at) != frame.n:
        return "%d atoms, the frame has %d" % (len(at), frame.n)
    want = [species[t - 1] for t in frame.types]
    if list(at.get_chemical_symbols()) != want:
        return "species %s instead of %s" % (at.get_chemical_symbols(), want)
    if not near(np.array(at.cell), frame.box(), tol):
        return "cell %s instead of %s" % (np.array(at.cell).tolist(), frame.box().tolist())
    if not shift_ok(at.positions, frame.positions(), frame, tol):
        return "positions %s" % at.positions.tolist()[:3]
    return None


def dict_differs(d, frame, tol=1e-9):
    if d is None:
        return "no data"
    if not near(np.array(d["box"], float), frame.bounds(), tol):
        return "box %s instead of %s" % (np.array(d["box"]).tolist(), frame.bounds())
    at = d["atoms"]
    if sorted(at) != sorted(frame.cols):
        return "columns %s instead of %s" % (sorted(at), sorted(frame.cols))
    for k in frame.cols:
        if k == "id":
            w = frame.ids
        elif k == "type":
            w = frame.types
        elif k[0] in "xyz" and k in ("x", "y", "z", "xs", "ys", "zs"):
            w = frame.raw_pos[:, "xyz".index(k[0])]
        else:
            w = [float(v) for v in frame.extra[k]]
        if not near(np.array(at[k], float), w, tol):
            return "column %s %s instead of %s" % (k, np.array(at[k]).tolist()[:4], list(w)[:4])
    return None


def parsed_differs(p, frame, tol=1e-9, timestep=True):
    """one frame as parsed from written text against the frame; the order of columns is free"""
    if p["n"] != frame.n:
        return "%d atoms instead of %d" % (p["n"], frame.n)
    if timestep and p["timestep"] != frame.timestep:
        return "timestep %d instead of %d" % (p["timestep"], frame.timestep)
    if not near(p["box"], frame.bounds(), tol):
        return "bounds %s instead of %s" % (p["box"], frame.bounds())
    if frame.tilt is not None and p["boxhead"][:3] != ["xy", "xz", "yz"]:
        return "header of a triclinic box is %s" % p["boxhead"]
    if sorted(p["cols"]) != sorted(frame.cols):
        return "columns %s instead of %s" % (p["cols"], frame.cols)
    arr = {c: [row[i] for row in p["rows"]] for i, c in enumerate(p["cols"])}
    return dict_differs(dict(box=p["box"], atoms={c: [float(v) for v in vs] for c, vs in arr.items()}), frame, tol)


def gen_shape(rng):
    """swarm: shape of a trajectory for a plan"""
    return dict(seed=rng.getrandbits(30), nframes=rng.choice([1, 2, 3, 4, 6]),
                natoms=rng.choice([1, 2, 2, 3, 3, 4, 6]),
                tri=rng.random() < .3, scaled=rng.random() < .25, extra=rng.choice([0, 0, 1, 2]),
                order=rng.random() < .4, vary_box=rng.random() < .8, shuffle_ids=rng.random() < .5,
                ntypes=rng.choice([1, 2]), neg=rng.random() < .4, style=rng.choice([None, None, "digits", "exp", "big"]))


def frames_of(shape):
    sh = dict(shape)
    sh["ntypes"] = min(sh.get("ntypes", 1), sh["natoms"])
    return gen_frames(**sh)


def shrink_shape(shape):
    for k, small in (("natoms", 1), ("natoms", 2), ("nframes", 1), ("nframes", 2), ("tri", False), ("scaled", False), ("extra", 0),
                     ("order", False), ("vary_box", False), ("shuffle_ids", False), ("ntypes", 1), ("neg", False), ("style", None)):
        if shape.get(k, None if k == "style" else small) != small and not (isinstance(small, int) and not isinstance(small, bool) and shape[k] < small):
            yield dict(shape, **{k: small})
