"""Fork server: imports the code under test once, then forks one fresh process
per simulated run.  Requests and replies are JSON lines on stdin/stdout."""
import gc, importlib, json, os, select, shutil, signal, sys, tempfile, time, traceback, warnings

REAL_TIME = time.monotonic


def child(req, prop, pkgdir, scratch, mods, wfd):
    gc.freeze()          # what the parent holds is not looked at again (and not copied)
    from sim import rt
    import random
    warnings.simplefilter("ignore")
    out = {}
    root = os.path.join(scratch, "run")
    os.mkdir(root)
    os.chdir(root)
    ctx = None
    plan = req.get("plan")
    try:
        if plan is None:
            rng = random.Random(req["seed"])
            plan = prop.gen(rng, req["tier"])
            plan["property"], plan["seed"] = prop.ID, req["seed"] & 0x7fffffff
            plan.setdefault("fill", rng.getrandbits(31) | 1)
        plan = json.loads(json.dumps(plan))      # a run sees only what a replay file can hold
        if req.get("keep_log"):
            plan = dict(plan, keep_log=True)
        alloc = rt.Alloc(mods)
        ctx = rt.Ctx(plan, pkgdir, root, alloc, req.get("known", ()))
        ctx.install()
        ctx.event("plan", {k: v for k, v in plan.items() if k != "keep_log"})
        if plan.get("trace", True):
            ctx.trace_on()
        try:
            prop.run(plan, ctx)
        finally:
            sys.settrace(None)
            ctx.fs.disarm()
            alloc.disarm()
            ctx.fs.remove()
        out = dict(status="ok")
    except rt.Violation as v:
        out = dict(status="violation", kind=v.kind, detail=v.detail[:2000])
    except rt.StepLimit:
        out = dict(status="violation", kind="no-progress", detail="step limit of the simulation reached")
    except BaseException as e:
        out = dict(status="harness", kind=type(e).__name__, detail=traceback.format_exc()[-3000:])
    if ctx is not None:
        out.update(ctx.result())
    if req.get("keep_plan") or out["status"] != "ok":
        out["plan"] = {k: v for k, v in (plan or {}).items() if k != "keep_log"}
    data = json.dumps(out, default=rt._jsonable).encode()
    os.set_blocking(wfd, True)
    mv = memoryview(data)
    while mv:
        n = os.write(wfd, mv)
        mv = mv[n:]
    os._exit(0)


def serve_one(req, prop, pkgdir, base, mods):
    scratch = os.path.join(base, "r")
    shutil.rmtree(scratch, ignore_errors=True)
    os.mkdir(scratch)
    r, w = os.pipe()
    err = os.path.join(scratch, "stderr")
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            fd = os.open(err, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, 2)
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 0)
            os.dup2(dn, 1)
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            os.setpgid(0, 0)
            child(req, prop, pkgdir, scratch, mods, w)
        finally:
            os._exit(77)
    os.close(w)
    t0 = REAL_TIME()
    buf = bytearray()
    limit = req.get("timeout", 60)
    timed_out = False
    while True:
        left = limit - (REAL_TIME() - t0)
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            continue
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    if timed_out:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    os.close(r)
    _, st = os.waitpid(pid, 0)
    wall = REAL_TIME() - t0
    try:
        tail = open(err, "rb").read()[-600:].decode("utf-8", "replace")
    except OSError:
        tail = ""
    if timed_out:
        res = dict(status="violation", kind="hang", detail="no answer within %ds of real time" % limit, digest="hang")
    elif buf:
        try:
            res = json.loads(bytes(buf))
        except ValueError:
            res = dict(status="harness", kind="reply", detail="unreadable reply %r" % bytes(buf[:200]))
    elif os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        name = signal.Signals(sig).name
        if sig == signal.SIGKILL:
            res = dict(status="harness", kind="killed", detail="run was killed (out of memory?)")
        else:
            res = dict(status="violation", kind="crash-" + name, detail=tail, digest="crash-" + name)
    else:
        res = dict(status="harness", kind="exit", detail="run exited with %d\n%s" % (st, tail))
    res["wall"] = wall
    shutil.rmtree(scratch, ignore_errors=True)
    return res


def main():
    pkgdir, propid, base, verif = sys.argv[1:5]
    sys.path.insert(0, pkgdir)
    sys.path.insert(1, verif)
    sys.dont_write_bytecode = True
    proto = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    warnings.simplefilter("ignore")
    import numpy, scipy.special, scipy.spatial, scipy.sparse.csgraph
    import pyscal.core, pyscal.catom, pyscal.csystem, pyscal.trajectory, pyscal.traj_process
    import pyscal.crystal_structures, pyscal.misc, pyscal.routines
    assert os.path.realpath(pyscal.core.__file__).startswith(os.path.realpath(pkgdir)), pyscal.core.__file__
    prop = importlib.import_module("sim.props." + propid.lower())
    from sim import warm
    warm.warm()
    mods = [pyscal.catom, pyscal.csystem]
    print(json.dumps({"ready": 1}), file=proto)
    for line in sys.stdin:
        req = json.loads(line)
        res = serve_one(req, prop, pkgdir, base, mods)
        res["req"] = req.get("n")
        print(json.dumps(res), file=proto)


if __name__ == "__main__":
    main()
