"""Client programs over the simulated disk: ops with faults, retried without."""
from sim import rt


def attempt(ctx, op, what, fn, judge, errors_ok=False):
    """Run fn under the fault of this op.  A fault may make the call fail; it may not
    make it return something wrong, and without the fault the call has to work."""
    flt = op.get("fault")
    fired = False
    if flt:
        with_interrupt = flt.get("op") == "interrupt"
        if with_interrupt:
            ctx.interrupt_after(flt["at"])
        else:
            ctx.fs.arm([flt])
        try:
            ok, v = ctx.call(fn)
        finally:
            fired = ctx.interrupt_off() if with_interrupt else bool(ctx.fs.disarm())
        if ok:
            with ctx.judging():
                judge(v)
            ctx.event(what, "ok", fired)
            return v
        ctx.event(what, "error", type(v).__name__, fired)
        if not fired:
            ctx.fail("unexpected-error", "%s raised %s: %s" % (what, type(v).__name__, str(v)[:200]))
            return None
        ctx.probe("retried_after_fault")
        # errors hold on to frames, and those to open files
        v = None
    v = ctx.must(what + (" (after a fault)" if fired else ""), fn)
    with ctx.judging():
        judge(v)
    ctx.event(what, "ok")
    return v


def expect_error(ctx, what, fn, types):
    ok, v = ctx.call(fn)
    if ok:
        ctx.fail("no-error", "%s did not raise" % what)
    elif not isinstance(v, types):
        ctx.fail("wrong-error", "%s raised %s: %s" % (what, type(v).__name__, str(v)[:100]))
    ctx.event(what, "raised", type(v).__name__)


def run_clients(ctx, plan, body):
    """body(client, op) for each op; ops of one client in order, clients interleaved"""
    n = plan.get("clients", 1)
    per = [[op for op in plan["ops"] if op.get("c", 0) % n == c] for c in range(n)]

    def prog(c):
        def go():
            for op in per[c]:
                body(c, op)
        return go
    if n == 1:
        prog(0)()
    else:
        ctx.clients([prog(c) for c in range(n)], plan.get("schedule", []))


def gen_schedule(rng, clients, quanta=(1, 3, 10, 40, 150), length=(20, 60, 200)):
    q = rng.choice(quanta)
    return [[rng.randrange(clients), 1 + int(rng.expovariate(1.0 / q))] for _ in range(rng.choice(length))]


def gen_read_fault(rng, rate=.25):
    if rng.random() > rate:
        return None
    k = rng.choice(["open", "read", "read", "read", "interrupt"])
    if k == "interrupt":
        return dict(op="interrupt", at=1 + int(rng.expovariate(1 / 60.)))
    return dict(op=k, kind="EIO" if k == "read" else rng.choice(["EMFILE", "EIO", "EACCES"]),
                at=int(rng.expovariate(1 / 2.)), file="*")


def gen_io_knobs(rng):
    return dict(read_chunk=rng.choice([0, 0, 1, 7, 64, 500]), buffer=rng.choice([0, 0, 16, 100, 4096]))
