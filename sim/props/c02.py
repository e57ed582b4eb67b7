"""Trajectory of a file that is being written, or was cut off"""
import os
from sim import dump as D
from sim.iokit import *

ID = "C02"
QUICK, THOROUGH, TIMEOUT = 4000, 30000, 120
RULE = ("a run = a simulated MD code appending seeded frames in arbitrary byte pieces, dying or being truncated at an arbitrary byte, "
        "while 1-2 readers open the file and read frames, interleaved by a seeded schedule; non-trivial = a reader opened an incomplete file")


def gen(rng, tier):
    sh = D.gen_shape(rng)
    sh["nframes"] = rng.choice([1, 2, 3, 4, 6])
    sh["natoms"] = rng.choice([1, 2, 3, 5, 10, 12])
    nr = rng.choice([1, 1, 2])
    ops = []
    style = rng.choice(["bytes", "lines", "frames", "mixed"])
    for _ in range(rng.choice([1, 2, 4, 8, 14])):
        st = style if style != "mixed" else rng.choice(["bytes", "lines", "frames"])
        n = dict(bytes=int(rng.expovariate(1 / 60.)) + 1, lines=-rng.randrange(1, 14), frames=rng.randrange(1, 3) * 100000)[st]
        ops.append(dict(c=0, k="w", n=n))
    if rng.random() < .15:
        # the first header is cut off
        ops.insert(0, dict(c=0, k="w", n=rng.randrange(36, 48)))
    if rng.random() < .3:
        ops.append(dict(c=0, k="trunc", back=int(rng.expovariate(1 / 150.)) + 1))
    for r in range(nr):
        for _ in range(rng.choice([1, 2, 3, 5])):
            op = dict(c=1 + r, k=rng.choice(["open", "open", "read", "read", "all", "iter"]),
                      i=rng.randrange(0, sh["nframes"]), out=rng.choice(["system", "dict", "block", "file"]))
            op["fault"] = gen_read_fault(rng, .1)
            ops.insert(rng.randrange(len(ops) + 1), op)
    threads = rng.random() < .6
    plan = dict(shape=sh, ops=ops, readers=nr, threads=threads,
                schedule=gen_schedule(rng, nr + 1, quanta=(2, 5, 20, 60)) if threads else [])
    plan.update(gen_io_knobs(rng))
    return plan


def run(plan, ctx):
    import pyscal.trajectory as pt
    frames = D.frames_of(plan["shape"])
    data = "".join(f.text for f in frames).encode()
    name = "live.dump"
    lines_end = [i + 1 for i, ch in enumerate(data) if ch == 10]
    ends, pos = [], 0                       # byte at which frame k is complete
    for f in frames:
        pos += len(f.text)
        ends.append(pos)
    torn = []                               # byte behind which only the last line of frame k is torn
    for f, e in zip(frames, ends):
        torn.append(e - len(f.lines[-1]))
    fd = os.open(name, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    w = dict(pos=0, truncated=False)
    objs = {}

    def write(n):
        p = w["pos"]
        if n < 0:
            k = sum(1 for e in lines_end if e <= p)
            e = lines_end[min(len(lines_end) - 1, k - n - 1)]
        elif n >= 100000:
            k = sum(1 for e in ends if e <= p)
            e = ends[min(len(ends) - 1, k + n // 100000 - 1)]
        else:
            e = min(len(data), p + n)
        while p < e:
            m = min(e, p + 97)
            os.pwrite(fd, data[p:m], p)
            p = w["pos"] = m
            ctx.sched_point("writer")
        ctx.event("written", w["pos"])

    def complete(p):
        return sum(1 for e in ends if e <= p)

    def maybe(p):
        """frames of which at least a part of the last line is there"""
        return sum(1 for t in torn if t < p)

    def do_open(c, op):
        p0 = w["pos"]
        state = {}

        def judge(t):
            p1 = w["pos"]
            ctx.check(t.nblocks >= complete(min(p0, w["pos"])) or w["truncated"], "frames-missing",
                      lambda: "%d frames are shown, %d were complete when the file was opened" % (t.nblocks, complete(p0)))
            ctx.check(t.nblocks <= maybe(max(p0, p1, w.get("max", 0))), "incomplete-frame-shown",
                      lambda: "%d frames are shown, only %d are there" % (t.nblocks, maybe(max(p0, p1))))
            if complete(p0) < len(frames):
                ctx.nontrivial = True
            ctx.state("open", complete(p0), t.nblocks, p0 not in lines_end)
        # before the header of the first frame is complete there is no trajectory
        head = sum(len(l) for l in frames[0].lines[:4])
        if p0 < head:
            ok, v = ctx.call(pt.Trajectory, name)
            ctx.event("open-early", ok, type(v).__name__)
            if not ok:
                return
            with ctx.judging():
                judge(v)
            objs[c] = v
            return
        if w["truncated"] or (plan["threads"] and w["will_trunc"]):
            ok, v = ctx.call(pt.Trajectory, name)
            if ok:
                with ctx.judging():
                    judge(v)
                objs[c] = v
            elif not w["truncated"]:
                ctx.fail("unexpected-error", "open: %r" % (v,))
        else:
            objs[c] = attempt(ctx, op, "open", lambda: pt.Trajectory(name), judge)
        ctx.probe("opened")

    def differs(v, i, out):
        fr = frames[i]
        if out == "system":
            return D.system_differs(v[0], fr)
        if out == "dict":
            return D.dict_differs(v[0], fr)
        if out == "block":
            return None if "".join(v) == fr.text else "raw lines"
        ps = D.parse_dump(v)
        if len(ps) != 1:
            return "%d frames written" % len(ps)
        return D.parsed_differs(ps[0], fr)

    def fetch(c, t, i, out):
        if out == "system":
            return t[i].to_system()
        if out == "dict":
            return t[i].to_dict()
        if out == "block":
            return t.get_block(i)
        o = "out%d.dump" % c
        t[i].to_file(o)
        with open(o) as f:
            return f.read()

    def do_read(c, op, i):
        t = objs[c]
        if not 0 <= i < t.nblocks:
            expect_error(ctx, "frame %d of %d" % (i, t.nblocks), lambda: t[i].to_system(), (IndexError,))
            return
        p0 = w["pos"]
        if p0 < ends[i] or w["truncated"]:
            # (partly) gone, or only a part of its last line is there
            ok, v = ctx.call(fetch, c, t, i, op["out"])
            ctx.probe("read_of_incomplete_frame")
            if ok and max(p0, w["pos"]) <= torn[i]:
                with ctx.judging():
                    d = differs(v, i, op["out"])
                ctx.check(d is None, "wrong-frame", lambda: "frame %d was cut off, %s shows %s" % (i, op["out"], d))
            ctx.event("read-incomplete", ok)
            return

        def judge(v):
            if w["truncated"]:
                return
            d = differs(v, i, op["out"])
            ctx.check(d is None, "wrong-frame", lambda: "%s of frame %d: %s" % (op["out"], i, d))
            ctx.probe("frames_compared")
        if plan["threads"] and w.get("will_trunc"):
            ok, v = ctx.call(fetch, c, t, i, op["out"])
            if ok:
                with ctx.judging():
                    judge(v)
            elif not w["truncated"]:
                ctx.fail("unexpected-error", "reading frame %d: %r" % (i, v))
            return
        attempt(ctx, op, "read", lambda: fetch(c, t, i, op["out"]), judge)

    w["will_trunc"] = any(op["k"] == "trunc" for op in plan["ops"])

    def body(c, op):
        k = op["k"]
        if k == "w":
            if not w["truncated"]:
                write(op["n"])
                w["max"] = max(w.get("max", 0), w["pos"])
        elif k == "trunc":
            p = max(0, w["pos"] - op["back"])
            w["truncated"] = True
            w["pos"] = p
            os.ftruncate(fd, p)
            ctx.fault_fired("truncate")
            ctx.event("truncated", p)
        elif k == "open":
            do_open(op["c"], op)
        elif op["c"] in objs:
            t = objs[op["c"]]
            if k == "read":
                do_read(op["c"], op, op["i"])
            elif k == "all":
                for i in range(t.nblocks):
                    do_read(op["c"], dict(op, fault=None), i)
            elif k == "iter":
                got = ctx.must("iter", lambda: [int(x) for x in t.iter()])
                ctx.check(got == list(range(t.nblocks)), "wrong-iteration", got)

    if plan["threads"]:
        run_clients(ctx, dict(plan, clients=plan["readers"] + 1), body)
    else:
        for op in plan["ops"]:
            body(op["c"], op)
    # the writer finishes; a fresh reader sees everything
    if not w["truncated"]:
        if w["pos"] < len(data):
            if plan["seed"] % 2:
                ctx.fault_fired("writer_died")
            else:
                write(len(frames) * 100000)
        t_complete = complete(w["pos"])
        if w["pos"] >= ends[0]:
            op = dict(c=9, k="open")
            do_open(9, op)
            for i in range(t_complete):
                do_read(9, dict(op, out="system"), i)
        for c, t in objs.items():
            for i in range(min(t.nblocks, t_complete)):
                do_read(c, dict(c=c, out="dict"), i)
    os.close(fd)


def shrink(plan):
    if plan["threads"]:
        yield dict(plan, threads=False, schedule=[])
    for s in D.shrink_shape(plan["shape"]):
        yield dict(plan, shape=s)
