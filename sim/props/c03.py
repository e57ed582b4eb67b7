"""Loaded, modified, unloaded trajectory frames"""
import numpy as np
from sim import dump as D
from sim.iokit import *

ID = "C03"
QUICK, THOROUGH, TIMEOUT = 4000, 30000, 120
RULE = ("a run = a seeded history of load/modify/unload/write/convert operations with read faults on 1-2 trajectories, 1-2 client "
        "threads with objects of their own; non-trivial = a written or converted frame was compared after a load")


def gen(rng, tier):
    clients = rng.choice([1, 1, 1, 2])
    nf = rng.choice([1, 1, 2])
    shapes = [D.gen_shape(rng) for _ in range(nf)]
    ops = []
    for _ in range(rng.choice([2, 3, 5, 8, 12])):
        f = rng.randrange(nf)
        N = shapes[f]["nframes"]
        k = rng.choice(["load", "load", "mod", "mod", "mod", "unload", "file", "file", "dict", "system", "modret", "sum"])
        op = dict(c=rng.randrange(clients), k=k, f=f, i=rng.randrange(N), seed=rng.getrandbits(24))
        if k == "mod" or k == "modret":
            op["what"] = rng.choice(["pos", "box", "column", "type", "element", "tiny"])
        if k in ("file", "dict", "system"):
            a = rng.randrange(N)
            op["s"] = rng.choice([[None, None, None], [a, None, None], [a, a + 1, None], [None, None, -1]])
        if k == "sum":
            op["parts"] = [[rng.randrange(nf), 0], [f, op["i"]]]
        if k in ("load", "dict", "system"):
            op["fault"] = gen_read_fault(rng, .2)
            if k == "dict" and (op["fault"] or {}).get("op") == "interrupt":
                op["fault"] = None        # may leave the frame loaded, which is allowed
        ops.append(op)
    plan = dict(shapes=shapes, clients=clients, ops=ops, schedule=gen_schedule(rng, clients) if clients > 1 else [])
    plan.update(gen_io_knobs(rng))
    return plan


def modify(d, what, seed):
    """what a user does to loaded data; applied to the real data and to the model alike"""
    r = np.random.RandomState(seed & 0xffffff)
    at = d["atoms"]
    n = len(at["id"])
    xs = [k for k in at if k in ("x", "y", "z", "xs", "ys", "zs")]
    if what == "pos":
        for k in xs:
            at[k] = np.array(at[k]) + np.round(r.uniform(-.5, .5, n), 6)
    elif what == "element":
        at[xs[0]][r.randint(n)] = round(float(r.uniform(-4, 4)), 9)
    elif what == "tiny":
        at[xs[1]][r.randint(n)] = float(r.choice([1e-9, -3.25e-12, 123456789.125, 0.1 + 0.2]))
    elif what == "box":
        d["box"] = np.array(d["box"]) * (1 + .01 * r.randint(1, 5))
    elif what == "type":
        at["type"] = r.randint(1, 4, n)
    elif what == "column":
        at["c_mine"] = np.round(r.uniform(-9, 9, n), 5)


def run(plan, ctx):
    import pyscal.trajectory as pt
    frames, names = [], []
    for i, sh in enumerate(plan["shapes"]):
        fr = D.frames_of(sh)
        frames.append(fr)
        names.append("traj%d.dump" % i)
        with open(names[i], "w") as f:
            f.write("".join(x.text for x in fr))
    nc = plan["clients"]
    trajs = [[ctx.must("open", pt.Trajectory, n) for n in names] for _ in range(nc)]
    model = [[dict() for _ in names] for _ in range(nc)]     # frame -> loaded data, as modified

    def fresh(f, i):
        fr = frames[f][i]
        at = {}
        for k in fr.cols:
            if k == "id":
                at[k] = np.array(fr.ids, float)
            elif k == "type":
                at[k] = np.array(fr.types, float)
            elif k in ("x", "y", "z", "xs", "ys", "zs"):
                at[k] = np.array(fr.raw_pos[:, "xyz".index(k[0])])
            else:
                at[k] = np.array([float(v) for v in fr.extra[k]])
        return dict(box=np.array(fr.bounds(), float), atoms=at)

    def want(c, f, i):
        return model[c][f].get(i) or fresh(f, i)

    def data_differs(got, w):
        if not exact(got["box"], w["box"]):
            return "box %s instead of %s" % (np.array(got["box"]).tolist(), w["box"].tolist())
        if sorted(got["atoms"]) != sorted(w["atoms"]):
            return "columns %s instead of %s" % (sorted(got["atoms"]), sorted(w["atoms"]))
        for k in w["atoms"]:
            if not exact(got["atoms"][k], w["atoms"][k]):
                return "column %s is %s instead of %s" % (k, list(got["atoms"][k])[:3], list(w["atoms"][k])[:3])
        return None

    def exact(a, b):
        a, b = np.asarray(a, float), np.asarray(b, float)
        return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-14 * np.abs(b)))

    def written_differs(p, c, f, i):
        fr, w = frames[f][i], want(c, f, i)
        if p["timestep"] != fr.timestep:
            return "timestep %d instead of %d" % (p["timestep"], fr.timestep)
        if p["n"] != fr.n:
            return "%d atoms" % p["n"]
        if (fr.tilt is not None) != (p["boxhead"][:3] == ["xy", "xz", "yz"]):
            return "box header %s" % p["boxhead"]
        arr = {k: np.array([float(row[j]) for row in p["rows"]]) for j, k in enumerate(p["cols"])}
        for k in ("id", "type"):
            j = p["cols"].index(k)
            if any(not row[j].lstrip("-").isdigit() for row in p["rows"]):
                return "%s is not written as an integer" % k
        return data_differs(dict(box=np.array(p["box"]), atoms=arr), w)

    def check_file(c, ts, idx, name):
        ctx.must("to_file", ts.to_file, name)
        with open(name) as f:
            text = f.read()
        with ctx.judging():
            ps = D.parse_dump(text)
            ctx.check(len(ps) == len(idx), "wrong-frames", "%d written instead of %d" % (len(ps), len(idx)))
            for p, (f, i) in zip(ps, idx):
                d = written_differs(p, c, f, i)
                ctx.check(d is None, "wrong-frame-written",
                          lambda: "frame %d (%s): %s" % (i, "loaded" if i in model[c][f] else "not loaded", d))
                ctx.probe("written_modified" if i in model[c][f] else "written_unmodified")
        ctx.nontrivial = True
        ctx.event("file", [x for x in idx])

    def body(c, op):
        k, f, i = op["k"], op["f"], op["i"]
        t, m = trajs[c][f], model[c][f]
        ctx.state(k, len(m), i in m, op.get("what"))
        if k == "load":
            def judge(_):
                d = data_differs(t.data[i], fresh(f, i))
                ctx.check(d is None, "wrong-frame", lambda: "load(%d): %s" % (i, d))
            flt = op.get("fault")
            attempt(ctx, op, "load", lambda: t.load(i), judge)
            m[i] = fresh(f, i)
        elif k == "unload":
            if i in m:
                ctx.must("unload", t.unload, i)
                del m[i]
                ctx.check(t.data[i] is None, "still-loaded", "data of frame %d is kept after unload" % i)
        elif k == "mod":
            if i in m:
                modify(t.data[i], op["what"], op["seed"])
                modify(m[i], op["what"], op["seed"])
                ctx.event("mod", op["what"])
        elif k == "modret":
            # data handed out for a frame that is not loaded is not part of the trajectory
            if i not in m:
                got = ctx.must("to_dict", lambda: t[i].to_dict())
                with ctx.judging():
                    modify(got[0], op["what"], op["seed"])
                check_file(c, t[i], [(f, i)], "out%d.dump" % c)
        elif k == "sum":
            parts = [tuple(p) for p in op["parts"]]
            ts = [trajs[c][g][j] for g, j in parts]
            check_file(c, ctx.must("add", lambda: ts[0] + ts[1]), parts, "out%d.dump" % c)
        else:
            N = len(frames[f])
            idx = [(f, j) for j in range(N)[slice(*op["s"])]]
            ts = ctx.must("index", lambda: t[slice(*op["s"])])
            if k == "file":
                check_file(c, ts, idx, "out%d.dump" % c)
            elif k == "dict":
                def judge(v):
                    ctx.check(len(v) == len(idx), "wrong-frames", len(v))
                    for g, (f_, j) in zip(v, idx):
                        d = data_differs(g, want(c, f_, j)) if g is not None else "no data"
                        ctx.check(d is None, "wrong-frame", lambda: "to_dict of frame %d (%s): %s" % (
                            j, "loaded" if j in m else "not loaded", d))
                    for j in range(N):
                        ctx.check((t.data[j] is not None) == (j in m), "load-state",
                                  "frame %d is %s after to_dict" % (j, "not loaded any more" if j in m else "loaded"))
                attempt(ctx, op, "to_dict", ts.to_dict, judge)
                ctx.nontrivial = True
            else:
                def judge(v):
                    for s, (f_, j) in zip(v, idx):
                        if j not in m:
                            d = D.system_differs(s, frames[f_][j])
                            ctx.check(d is None, "wrong-frame", lambda: "frame %d: %s" % (j, d))
                attempt(ctx, op, "to_system", ts.to_system, judge)

    run_clients(ctx, plan, body)
    for c in range(nc):
        for f in range(len(names)):
            N = len(frames[f])
            check_file(c, trajs[c][f][:], [(f, j) for j in range(N)], "end.dump")
            # the written file is a trajectory with the same content
            t2 = ctx.must("open", pt.Trajectory, "end.dump")
            for j in range(N):
                got = ctx.must("to_dict", lambda: t2[j].to_dict())[0]
                with ctx.judging():
                    d = data_differs(got, want(c, f, j))
                ctx.check(d is None, "wrong-frame", lambda: "reading back frame %d: %s" % (j, d))
            for j in list(model[c][f]):
                ctx.must("unload", trajs[c][f].unload, j)
            model[c][f].clear()
            check_file(c, trajs[c][f][:], [(f, j) for j in range(N)], "end.dump")


def shrink(plan):
    if plan["clients"] > 1:
        yield dict(plan, clients=1, schedule=[])
    for i, sh in enumerate(plan["shapes"]):
        for s in D.shrink_shape(sh):
            yield dict(plan, shapes=plan["shapes"][:i] + [s] + plan["shapes"][i + 1:])
