"""Voronoi cells, face neighbors and weights are those of the periodic configuration after any history"""
import warnings
import numpy as np
from sim import sysgen as G, world as W

ID = "C12"
QUICK, THOROUGH, TIMEOUT = 500, 30000, 180
RULE = ("a run = a history of configurations assigned, atoms moved/added/retyped, boxes changed, other analyses (some failing by allocation "
        "failure, interrupt or an exception in a callback) and Voronoi searches, whose volumes, faces, weights, vertices and averaged "
        "volumes are compared with a Voronoi diagram of the explicit periodic images; non-trivial = at least one cell was compared")


def gen(rng, tier):
    specs = W.gen_world(rng, big=.0, sizes=rng.choice([("tiny",), ("small",), ("small", "mid"), ("tiny", "small", "mid")]))
    for sp in specs:
        if sp["kind"] == "random":
            sp["dmin"] = max(sp["dmin"], .5)
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        ops += W.gen_history(rng, len(specs))
        ops.append(dict(k="verify", seed=rng.getrandbits(20), filter=rng.choice([None, None, "type", "type_r"]), voroexp=rng.choice([1, 1, 2, 3, 0]),
                        vorovector=rng.random() < .4, edge_cutoff=rng.choice([.05, .01, .1]), area_cutoff=rng.choice([.01, .002, .05])))
    return dict(specs=specs, ops=ops, trace=False)


def run(plan, ctx):
    warnings.simplefilter("ignore")
    w = W.World(ctx, plan["specs"])
    for op in plan["ops"]:
        if op["k"] == "verify":
            verify(ctx, w, op)
        else:
            w.history(op)


def area(pts):
    """area vector of a polygon"""
    c = pts - pts[0]
    return .5 * np.cross(c[:-1], c[1:]).sum(axis=0)


def diagram(cfg, pick, d0):
    """{atom: (volume, [(head, displacement, area)])} for those atoms whose cells are certain"""
    from scipy.spatial import Voronoi
    reach = 2.6 * d0
    pick = list(pick)
    for _ in range(3):
        img = G.Images(cfg, reach * 1.01)
        near = set()
        for h in img.tree.query_ball_point(cfg.pos[pick], reach):
            near.update(h)
        near = np.array(sorted(near), int)
        pts, idx = img.pos[near], img.idx[near]
        own = {int(idx[k]): k for k in range(len(near)) if img.zero[near[k]]}
        faces = {own[i]: [] for i in pick}
        ok = dict.fromkeys(faces, True)
        vor = Voronoi((pts - pts.mean(axis=0)) / d0)
        shift, verts = pts.mean(axis=0), vor.vertices * d0
        verts = verts + shift
        for (a, b), ridge in zip(vor.ridge_points, vor.ridge_vertices):
            for p, o in ((int(a), int(b)), (int(b), int(a))):
                if p in faces:
                    if -1 in ridge:
                        ok[p] = False
                        continue
                    v = verts[ridge]
                    if np.abs(v - pts[p]).max() * 2 > reach * .57 * 2 or np.linalg.norm(v - pts[p], axis=1).max() * 2 > reach:
                        ok[p] = False
                    faces[p].append((int(idx[o]), pts[o] - pts[p], np.linalg.norm(area(v))))
        if all(ok.values()):
            break
        reach *= 1.5
    out = {}
    for i in pick:
        if not ok[own[i]]:
            continue
        f = faces[own[i]]
        out[i] = (sum(np.linalg.norm(v) * a for _, v, a in f) / 6., f)
    return out


def verify(ctx, w, op):
    s, cfg = w.s, w.cfg
    if cfg.n > 500:
        return
    d0 = w.spacing()
    what = "voronoi filter=%s voroexp=%d" % (op["filter"], op["voroexp"])
    ok, v = ctx.call(s.find_neighbors, method="voronoi", filter=op["filter"], voroexp=op["voroexp"])
    if not ok:
        ctx.fail("unexpected-error", "%s on %d atoms raised %s: %s" % (what, cfg.n, type(v).__name__, str(v)[:200]))
        return
    if op["vorovector"]:
        ctx.must("vorovector", lambda: s.calculate_vorovector(edge_cutoff=op["edge_cutoff"], area_cutoff=op["area_cutoff"]))
    al, t = op["voroexp"], cfg.types
    count = 0
    with ctx.judging():
        vols = {}
        L = W.Lists(w, 120 if cfg.n < 130 else 60)
        ref = diagram(cfg, L.pick, d0)
        heads = {}
        half = w.cellwidth()
        for i in L.pick:
            if i not in ref:
                continue
            a = L.atoms[i]
            vol, faces = ref[i]
            if max(np.linalg.norm(x) for _, x, _ in faces) > .499 * half:
                # the cell is so thin that neighbors on opposite sides are the same atom
                ref.pop(i)
                continue
            nb, vec, dist, wt = L.of(i)
            bad = L.consistent(i)
            ctx.check(bad is None, "inconsistent-neighbors", lambda: "%s: atom %d: %s" % (what, i, bad))
            ctx.check(abs(a.volume - vol) < 1e-6 * vol, "wrong-volume", lambda: "%s: atom %d of %d: volume %r instead of %r" % (what, i, cfg.n, a.volume, vol))
            cut = np.cbrt(3 * vol / (4 * np.pi))
            ctx.check(abs(a.cutoff - cut) < 1e-6 * cut, "wrong-cutoff", lambda: "%s: atom %d: cutoff %r instead of %r" % (what, i, a.cutoff, cut))
            vols[i] = a.volume
            total = sum(x for _, _, x in faces)
            tiny = 1e-7 * total
            norm = sum(x ** al for _, _, x in faces if x > tiny) if al else None
            want = [(h, x, y) for h, x, y in faces if op["filter"] is None or (t[h] == t[i]) == (op["filter"] == "type")]
            # every face that is not tiny is there, with its weight
            big = [f for f in want if f[2] > 1e-5 * total]
            tol = L.tol * 10
            used = set()
            hd = L.head(nb)
            for h, x, y in big:
                k = int(np.abs(vec - x).max(axis=1).argmin()) if len(nb) else -1
                ctx.check(k >= 0 and np.abs(vec[k] - x).max() < tol, "missing-neighbor",
                          lambda: "%s: atom %d of %d has no neighbor at %s (%.3g of the surface)" % (what, i, cfg.n, x.tolist(), y / total))
                ctx.check(hd[k] == h, "wrong-neighbors", lambda: "%s: atom %d: neighbor at %s is %d, not %d" % (what, i, x.tolist(), hd[k], h))
                ctx.check(k not in used, "wrong-neighbors", lambda: "%s: atom %d: neighbors share a place" % (what, i))
                used.add(k)
                if al:
                    ctx.check(abs(wt[k] - y ** al / norm) < 1e-5, "wrong-weight",
                              lambda: "%s: atom %d of %d: weight %r instead of %r" % (what, i, cfg.n, wt[k], y ** al / norm))
                else:
                    ctx.check(abs(wt[k] - wt[0]) < 1e-9, "wrong-weight", lambda: "%s: atom %d: weights %s" % (what, i, wt.tolist()))
            # and nothing else, except for tiny faces
            for k in range(len(nb)):
                if k in used:
                    continue
                near = [y for h, x, y in want if np.abs(vec[k] - x).max() < tol]
                # faces that only touch exist or do not exist by rounding
                ctx.check(bool(near) or own_area(a, k) < 1e-4 * total, "wrong-neighbors",
                          lambda: "%s: atom %d of %d has no face towards %s" % (what, i, cfg.n, vec[k].tolist()))
                ctx.check(op["filter"] is None or (t[hd[k]] == t[i]) == (op["filter"] == "type"), "wrong-neighbors",
                          lambda: "%s: atom %d of type %d has neighbor of type %d" % (what, i, t[i], t[hd[k]]))
            if op["filter"] is None and al:
                ctx.check(abs(wt.sum() - 1) < 1e-9, "wrong-weight", lambda: "%s: atom %d: the weights sum up to %r" % (what, i, wt.sum()))
            geometry(ctx, w, a, nb, vec, what, i, total)
            heads[i] = hd
            if op["vorovector"] and al == 1:
                vorovector(ctx, a, op, wt, what, i)
            count += 1
        if len(ref) == cfg.n and len(L.pick) == cfg.n:
            tot = sum(vols.values())
            ctx.check(abs(tot - cfg.volume()) < 1e-6 * tot, "wrong-volume", lambda: "%s: the cells have volume %r, the box %r" % (what, tot, cfg.volume()))
            for i in L.pick:
                avg = (vols[i] + sum(vols[int(h)] for h in heads[i])) / (len(heads[i]) + 1.)
                got = L.atoms[i].avg_volume
                ctx.check(abs(got - avg) < 1e-6 * avg, "wrong-avg-volume",
                          lambda: "%s: atom %d of %d: averaged volume %r instead of %r" % (what, i, cfg.n, got, avg))
    w.check_config("after find_neighbors")
    ctx.nontrivial = ctx.nontrivial or count > 0
    ctx.probe("cells_compared", count)
    ctx.state("verify", w.spec["box"], w.spec["kind"], cfg.n < 100, cfg.n < 200, op["filter"], al, w.touched, w.s_failed > 0, op["vorovector"])
    ctx.event("verify", cfg.n, count)


def polygons(a):
    """vertices of the faces, relative to the atom"""
    num, vv = list(a.vertex_numbers), np.array(a.vertex_vectors, float).reshape(-1, 3)
    out, st = [], 0
    while st < len(num):
        k = num[st]
        out.append(vv[num[st + 1:st + 1 + k]])
        st += k + 1
    return out


def own_area(a, k):
    p = polygons(a)
    return np.linalg.norm(area(p[k])) if k < len(p) else np.inf


def geometry(ctx, w, a, nb, vec, what, i, total):
    """vertices, their numbers and perimeters belong to the faces of the listed neighbors"""
    d0 = w.spacing()
    pol = polygons(a)
    ctx.check(len(pol) == len(nb), "wrong-faces", lambda: "%s: atom %d: vertices of %d faces, %d neighbors" % (what, i, len(pol), len(nb)))
    fv, fp = list(a.face_vertices), list(a.face_perimeters)
    ctx.check(len(fv) == len(nb) and len(fp) == len(nb), "wrong-faces", lambda: "%s: atom %d: %d faces, %d perimeters" % (what, i, len(fv), len(fp)))
    vp, vv = np.array(a.vertex_positions, float).reshape(-1, 3), np.array(a.vertex_vectors, float).reshape(-1, 3)
    ctx.check(vp.shape == vv.shape and np.abs(vp - vv - np.array(a.pos)).max() < 1e-7 * d0 + 1e-12 * np.abs(vp).max(), "wrong-vertices",
              lambda: "%s: atom %d: vertex positions and vectors differ" % (what, i))
    for k, p in enumerate(pol):
        ctx.check(len(p) == fv[k], "wrong-faces", lambda: "%s: atom %d: face %d has %d vertices, not %d" % (what, i, k, len(p), fv[k]))
        per = np.linalg.norm(p - np.roll(p, 1, axis=0), axis=1).sum()
        ctx.check(abs(per - fp[k]) < 1e-6 * d0, "wrong-faces", lambda: "%s: atom %d: perimeter %r of face %d instead of %r" % (what, i, fp[k], k, per))
        # the plane of the face is half way to the neighbor
        off = np.abs((p - vec[k] / 2) @ vec[k]) / np.linalg.norm(vec[k])
        ctx.check(off.max() < 1e-5 * d0, "wrong-faces", lambda: "%s: atom %d: face %d is not that of its neighbor (off by %.3g)" % (what, i, k, off.max()))


def vorovector(ctx, a, op, wt, what, i):
    want = [0, 0, 0, 0]
    edges = [np.linalg.norm(p - np.roll(p, 1, axis=0), axis=1) for p in polygons(a)]
    got = a.edge_lengths
    ctx.check([len(x) for x in got] == [len(x) for x in edges], "wrong-edges", lambda: "%s: atom %d: faces with %s edges instead of %s" % (what, i, [len(x) for x in got], [len(x) for x in edges]))
    for k, (g, e) in enumerate(zip(got, edges)):
        ctx.check(len(e) == 0 or np.abs(np.sort(g) - np.sort(e)).max() < 1e-9 * np.abs(e).max() + 1e-300, "wrong-edges", lambda: "%s: atom %d: edges of face %d are %s instead of %s" % (what, i, k, list(g), e.tolist()))
    for k, e in enumerate(edges):
        if e.sum() == 0:
            return
        e = e / e.sum()
        if abs(wt[k] - op["area_cutoff"]) < 1e-6 or np.abs(e - op["edge_cutoff"]).min() < 1e-6:
            return
        if wt[k] > op["area_cutoff"]:
            n = int(np.sum(e > op["edge_cutoff"]))
            if 3 <= n <= 6:
                want[n - 3] += 1
    got = list(a.vorovector)
    ctx.check(got == want, "wrong-vorovector", lambda: "%s: atom %d: vorovector %s instead of %s" % (what, i, got, want))
    ctx.probe("vorovectors_compared")


def shrink(plan):
    yield from W.shrink_world(plan)
    for i, op in enumerate(plan["ops"]):
        if op.get("filter"):
            yield dict(plan, ops=plan["ops"][:i] + [dict(op, filter=None)] + plan["ops"][i + 1:])
