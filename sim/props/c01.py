"""Trajectory frame fidelity"""
import io
from sim import dump as D
from sim.iokit import *

ID = "C01"
QUICK, THOROUGH, TIMEOUT = 1300, 30000, 120
RULE = ("a run = 1-2 seeded dump files, 1-3 client threads issuing index/slice/iterate/combine operations on them "
        "through own or shared Trajectory objects, seeded interleaving, disk faults; non-trivial = at least one frame was compared")

OUTS = ["system", "system", "ase", "dict", "file"]


def gen(rng, tier):
    nf = rng.choice([1, 1, 2])
    clients = rng.choice([1, 1, 2, 3])
    shapes = [D.gen_shape(rng) for _ in range(nf)]
    outs = rng.sample(["system", "ase", "dict", "file", "block"], rng.choice([1, 2, 3, 5]))
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4, 6, 9])):
        f = rng.randrange(nf)
        N = shapes[f]["nframes"]
        k = rng.choice(["get", "get", "slice", "slice", "iter", "sum", "bad", "again"])
        op = dict(c=rng.randrange(clients), k=k, f=f, out=rng.choice(outs), sh=rng.random() < .5)
        if k == "get":
            op["i"] = rng.randrange(-N, N)
        elif k == "slice":
            op["s"] = gen_slice(rng, N)
        elif k == "iter":
            op["m"] = rng.choice(["ascending", "descending", "random"])
            op["n"] = rng.choice([None, None, 0, 1, 2, N, N + 3])
            op["out"] = rng.choice(["index", "system"])
        elif k == "sum":
            op["parts"] = []
            for _ in range(rng.choice([2, 2, 3])):
                g = rng.randrange(nf)
                M = shapes[g]["nframes"]
                op["parts"].append([g, rng.randrange(-M, M) if rng.random() < .5 else gen_slice(rng, M)])
            op["how"] = rng.choice(["add", "sum"])
        elif k == "bad":
            op["i"] = rng.choice([N, N + 1, N + 7, -N - 1, -N - 5])
        if k in ("get", "slice", "sum"):
            op["keys"] = rng.random() < .4
            op["mode"] = rng.choice(["w", "w", "a"])
            op["fault"] = gen_read_fault(rng)
        ops.append(op)
    plan = dict(shapes=shapes, clients=clients, ops=ops, schedule=gen_schedule(rng, clients) if clients > 1 else [])
    plan.update(gen_io_knobs(rng))
    return plan


def gen_slice(rng, N):
    f = lambda: rng.choice([None, None, rng.randrange(-N - 2, N + 3)])
    return [f(), f(), rng.choice([None, None, 1, 2, 3, -1, -2])]


def run(plan, ctx):
    import pyscal.trajectory as pt
    frames, names = [], []
    for i, sh in enumerate(plan["shapes"]):
        fr = D.frames_of(sh)
        frames.append(fr)
        names.append("traj%d.dump" % i)
        with open(names[i], "w") as f:
            f.write("".join(x.text for x in fr))
    nc = plan["clients"]
    shared = [ctx.must("open", pt.Trajectory, n) for n in names]
    own = [dict() for _ in range(nc)]
    handles = [[] for _ in range(nc)]

    def traj(c, f, sh, out):
        # to_dict may load the frame into the object: such objects belong to one client
        if sh and (nc == 1 or out != "dict"):
            return shared[f]
        if f not in own[c]:
            own[c][f] = ctx.must("open", pt.Trajectory, names[f])
        return own[c][f]

    def pick(f, ix):
        fr = frames[f]
        return [fr[ix]] if isinstance(ix, int) else fr[slice(*ix)]

    def sub(t, ix):
        return t[ix] if isinstance(ix, int) else t[slice(*ix)]

    def compare(got, want, out, op, keys=None):
        if len(got) != len(want):
            ctx.fail("wrong-frames", "%d frames instead of %d" % (len(got), len(want)))
            return
        for j, (g, w) in enumerate(zip(got, want)):
            if out == "system":
                d = D.system_differs(g, w, keys)
            elif out == "ase":
                d = D.ase_differs(g, w, D.SYMBOLS)
            elif out == "dict":
                d = D.dict_differs(g, w)
            else:
                d = D.parsed_differs(g, w)
            if d:
                ctx.fail("wrong-frame", "%s of frame %d: %s" % (out, j, d))
        if want:
            ctx.nontrivial = True
        ctx.probe("frames_compared", len(want))

    def fetch(c, op, ts, want, out):
        keys = None
        if out == "system":
            if op.get("keys") and want:
                common = [k for k in want[0].extra if all(k in w.extra for w in want)]
                keys = common or None
            return attempt(ctx, op, "to_system", lambda: ts.to_system(customkeys=keys),
                           lambda v: compare(v, want, out, op, keys))
        if out == "ase":
            ntypes = {len(set(w.types)) for w in want}
            if len(ntypes) > 1:
                return
            sp = D.SYMBOLS[:max(ntypes or {1})]
            return attempt(ctx, op, "to_ase", lambda: ts.to_ase(species=sp), lambda v: compare(v, want, out, op))
        if out == "dict":
            return attempt(ctx, op, "to_dict", ts.to_dict, lambda v: compare(v, want, out, op))
        name = "out%d.dump" % c
        before = []
        if op.get("mode") == "a":
            with open(name, "w") as f:
                f.write(frames[0][0].text)
            before = [frames[0][0]]
        else:
            with open(name, "w") as f:
                f.write("something else\n")

        def judge(_):
            with open(name) as f:
                text = f.read()
            compare(D.parse_dump(text), before + want, "file", op)
        flt = op.get("fault")
        if before and flt:
            op = dict(op, fault=None)      # a retried append may repeat frames
        return attempt(ctx, op, "to_file", lambda: ts.to_file(name, mode=op.get("mode", "w")), judge)

    def body(c, op):
        k, f, out = op["k"], op["f"], op["out"]
        ctx.state(k, out, op.get("sh"), plan["clients"])
        if k in ("get", "slice"):
            t = traj(c, f, op["sh"], out)
            ix = op["i"] if k == "get" else op["s"]
            want = pick(f, ix)
            if out == "block":
                if k == "get":
                    i = ix % len(frames[f])
                    attempt(ctx, op, "get_block", lambda: t.get_block(i),
                            lambda v: ctx.check("".join(v) == want[0].text, "wrong-frame", "raw lines of frame %d" % i))
                    ctx.nontrivial = True
                    ctx.probe("frames_compared")
                return
            ts = ctx.must("index", sub, t, ix)
            handles[c].append((ts, want, t))
            fetch(c, op, ts, want, out)
        elif k == "again" and handles[c]:
            ts, want, t = handles[c][-1]
            if out == "block" or (out == "dict" and t in shared and nc > 1):
                out = "system"
            fetch(c, op, ts, want, out)
        elif k == "sum":
            if out == "block":
                out = "system"
            tt, want, singles = [], [], []
            for g, ix in op["parts"]:
                t = traj(c, g, op["sh"], out)
                tt.append(ctx.must("index", sub, t, ix))
                want += pick(g, ix)
                singles.append(pick(g, ix))
            if op["how"] == "sum":
                ts = ctx.must("sum", sum, tt)
            else:
                ts = tt[0]
                for x in tt[1:]:
                    ts = ctx.must("add", lambda a, b: a + b, ts, x)
            fetch(c, op, ts, want, out)
            # the parts are still the parts
            fetch(c, dict(op, fault=None), tt[0], singles[0], "system")
            handles[c].append((ts, want, traj(c, op["parts"][0][0], op["sh"], out)))
        elif k == "iter":
            t = traj(c, f, op["sh"], out)
            fr = frames[f]
            N = len(fr)
            n = N if op["n"] is None else min(op["n"], N)
            got = ctx.must("iter", lambda: list(t.iter(method=op["m"], n_slices=op["n"], output=op["out"])))
            with ctx.judging():
                if op["out"] == "index":
                    idx = [int(g) for g in got]
                    ctx.check(len(idx) == n and len(set(idx)) == n and all(0 <= i < N for i in idx),
                              "wrong-iteration", "%s of %s: indices %s" % (n, N, idx))
                    if op["m"] == "ascending":
                        ctx.check(idx == list(range(n)), "wrong-iteration", "ascending: %s" % idx)
                    if op["m"] == "descending":
                        ctx.check(idx == list(range(N - 1, N - 1 - n, -1)), "wrong-iteration", "descending: %s" % idx)
                else:
                    if op["m"] == "ascending":
                        compare(got, fr[:n], "system", op)
                    elif op["m"] == "descending":
                        compare(got, fr[::-1][:n], "system", op)
                    else:
                        left = list(fr)
                        for g in got:
                            hit = [w for w in left if D.system_differs(g, w) is None]
                            ctx.check(hit, "wrong-iteration", "random: not a frame, or a frame twice")
                            left.remove(hit[0])
                        ctx.check(len(got) == n, "wrong-iteration", "random: %d of %d" % (len(got), n))
            ctx.nontrivial = ctx.nontrivial or n > 0
            ctx.event("iter", op["m"], len(got))
        elif k == "bad":
            t = traj(c, f, op["sh"], "system")
            expect_error(ctx, "index %d of %d" % (op["i"], len(frames[f])), lambda: t[op["i"]].to_system(), IndexError)

    run_clients(ctx, plan, body)
    # whatever happened, the file reads the same through every object
    for f, t in enumerate(shared):
        ts = t[:]
        compare(ctx.must("to_system", ts.to_system), frames[f], "system", {})


def shrink(plan):
    if plan["clients"] > 1:
        yield dict(plan, clients=1, schedule=[])
    for i, sh in enumerate(plan["shapes"]):
        for s in D.shrink_shape(sh):
            yield dict(plan, shapes=plan["shapes"][:i] + [s] + plan["shapes"][i + 1:])
