"""split_trajectory writes every frame once, to a file of its own"""
import gzip, os, warnings
import numpy as np
from sim import dump as D, rt
from sim.iokit import *

ID = "C07"
QUICK, THOROUGH, TIMEOUT = 5000, 30000, 120
RULE = ("a run = 1-3 client threads that split trajectories (plain, gz, triclinic, scaled, 1-14 frames, a torn last frame, without a final "
        "newline) in one directory over leftovers of earlier splits, a writer that appends between splits, read/write/open/disk-full faults, "
        "short reads and writes, interrupts; every returned file is compared with its frame; non-trivial = a split with at least one frame")


def gen(rng, tier):
    clients = rng.choice([1, 1, 2, 3])
    files = []
    family = rng.choice(["t%d.dump", "t%d.a.b.dump", "traj%d", "t.%d", "t.snap.%d", "t.dump.%d.dat", None])
    for i in range(rng.choice([clients, clients, clients + 1]) if rng.random() < .8 else 1):
        sh = D.gen_shape(rng)
        sh["nframes"] = rng.choice([1, 1, 2, 3, 5, 11, 14])
        files.append(dict(shape=sh, gz=rng.choice([None, None, None, "name", "flag"]), tail=rng.choice(["", "", "nonl", "torn", "torn"]),
                          at=rng.random(), name=(family or rng.choice(["t%d.dump", "t%d.a.b.dump", "traj%d", "t.%d"])) % i, start=rng.choice([0, 0, 1, 2])))
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        f = rng.randrange(len(files))
        c = rng.randrange(clients)
        k = rng.choice(["split", "split", "split", "append", "leftover"])
        op = dict(c=c, file=f, kind=k, fault=None, seed=rng.getrandbits(16))
        if k == "split":
            op["fault"] = gen_read_fault(rng, .2)
            if rng.random() < .2:
                w = rng.choice(["ENOSPC", "EIO", "short", "close"])
                op["fault"] = (dict(op="close", kind="EIO", at=int(rng.expovariate(.5)), file="*") if w == "close" else
                               dict(op="write", kind=w, at=int(rng.expovariate(.3)), n_bytes=rng.choice([0, 1, 30]), file="*"))
        ops.append(op)
    # a file has one client at a time: two that split it would write to the same files
    for o in ops:
        o["c"] = o["file"] % clients
    plan = dict(files=files, clients=clients, ops=ops, schedule=gen_schedule(rng, clients) if clients > 1 else [],
                trace=clients > 1 or any((o["fault"] or {}).get("op") == "interrupt" for o in ops))
    plan.update(gen_io_knobs(rng))
    return plan


def run(plan, ctx):
    import pyscal.traj_process as ptp
    warnings.simplefilter("ignore")
    files = []
    for f in plan["files"]:
        fr = D.frames_of(f["shape"])
        n = len(fr) - f["start"]
        name = f["name"] + (".gz" if f["gz"] == "name" else "")
        files.append(dict(f, frames=fr, shown=max(1, n), path=name, torn=""))

    def put(f):
        text = "".join(x.text for x in f["frames"][:f["shown"]])
        tail = f["tail"]
        if tail == "nonl":
            text = text[:-1]
        elif tail == "torn":
            nxt = f["frames"][f["shown"] % len(f["frames"])]
            # never the complete last line: that could be a complete frame
            k = int(f["at"] * (len(nxt.text) - len(nxt.lines[-1]) - 1))
            text += nxt.text[:k]
        data = text.encode()
        if f["gz"]:
            data = gzip.compress(data, mtime=0)
        with open(f["path"], "wb") as fh:
            fh.write(data)
    for f in files:
        put(f)
    made = {}           # what the last split of every file returned

    def body(c, op):
        f = files[op["file"]]
        me = "file%d" % op["file"]
        if op["kind"] == "append":
            f["shown"] = min(len(f["frames"]), f["shown"] + 1)
            put(f)
            ctx.event(me, "append", f["shown"])
            return
        if op["kind"] == "leftover":
            k = op["seed"] % 4
            made.pop(me, None)
            with open("%s.snap.%d.dat" % (f["path"], k), "w") as fh:
                fh.write("left over\n" * (op["seed"] % 300))
            return
        want = f["frames"][:f["shown"]]
        kw = dict(compressed=True) if f["gz"] == "flag" else {}
        before = open(f["path"], "rb").read()
        ctx.state(f["gz"], f["tail"], len(want), (op["fault"] or {}).get("op"), (op["fault"] or {}).get("kind"), f["shape"]["tri"])

        def judge(names):
            ctx.check(isinstance(names, list) and len(names) == len(want), "wrong-frames",
                      lambda: "%d files for %d complete frames" % (len(names), len(want)))
            ctx.check(len(set(names)) == len(names), "same-file-twice", names)
            for k, (n, fr) in enumerate(zip(names, want)):
                ctx.check(os.path.exists(n), "file-missing", "%s was returned" % n)
                with open(n) as fh:
                    text = fh.read()
                ctx.check(text.rstrip("\n") == fr.text.rstrip("\n"), "wrong-frame",
                          lambda: "frame %d of %d in %s: %s" % (k, len(want), n, diff(text, fr.text)))
            ctx.check(not set(names) & {g["path"] for g in files}, "input-overwritten", names)
            ctx.check(open(f["path"], "rb").read() == before, "input-overwritten", f["path"])
            ctx.nontrivial = True
            ctx.probe("frames_compared", len(want))
            made[me] = [(n, fr) for n, fr in zip(names, want)]

        made.pop(me, None)
        attempt(ctx, op, "split_trajectory", lambda: ptp.split_trajectory(f["path"], **kw), judge)
        ctx.check(open(f["path"], "rb").read() == before, "input-overwritten", f["path"])

    run_clients(ctx, plan, body)
    # the files of one trajectory are not those of another
    for me in sorted(made):
        for n, fr in made[me]:
            ctx.check(os.path.exists(n), "file-missing", "%s was returned and is gone" % n)
            with open(n) as fh:
                text = fh.read()
            ctx.check(text.rstrip("\n") == fr.text.rstrip("\n"), "wrong-frame", lambda: "later, %s: %s" % (n, diff(text, fr.text)))


def diff(a, b):
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "%d instead of %d characters, first difference at %d: %r instead of %r" % (len(a), len(b), n, a[n:n + 40], b[n:n + 40])


def shrink(plan):
    if plan["clients"] > 1:
        yield dict(plan, clients=1, schedule=[])
    for i, f in enumerate(plan["files"]):
        def put(**kw):
            return dict(plan, files=plan["files"][:i] + [dict(f, **kw)] + plan["files"][i + 1:])
        for k, v in (("gz", None), ("tail", ""), ("start", 0)):
            if f[k] != v:
                yield put(**{k: v})
        for s in D.shrink_shape(f["shape"]):
            yield put(shape=s)
