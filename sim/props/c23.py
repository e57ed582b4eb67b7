"""A plot shows the system it was asked for"""
import contextlib, io, warnings
import numpy as np
from sim import sysgen as G, world as W, rt
try:
    import plotly.graph_objs as go
    import ipywidgets
    go.Figure(data=[go.Scatter3d(x=[0], y=[0], z=[0], mode="markers", marker=dict(size=1, color=[1], colorscale="Spectral", colorbar=dict(title="a")))]).to_dict()
except ImportError:
    go = ipywidgets = None

ID = "C23"
QUICK, THOROUGH, TIMEOUT = 400, 20000, 180
RULE = ("a run = a history of configurations, changes and analyses with systems plotted in between (colored and filtered by attributes, custom values and Steinhardt parameters), and "
        "a user who moves sliders and presses `Render plot` on any of the plots in a seeded order, with displays, allocations and lines of code that fail in between; every picture is "
        "compared with the cell and the atoms at the time they were plotted; non-trivial = at least one picture with atoms was judged")
REAL = ["pyscal visualization, core", "pyscal's C++ extension modules", "plotly figures", "ipywidgets controls"]
STUB = ["the display of figures and controls (no browser): they are recorded"]
COLORS = [None, None, "id", "type", "val", "solid", "cluster", "disorder", "q6", "aq4", "q2", "condition", "nothing"]
FILTERS = [None, None, None, "flag", "flag", "solid", "mask", "type", "none", "nothing"]


def gen(rng, tier):
    specs = W.gen_world(rng, big=.02, sizes=rng.choice([("tiny",), ("tiny", "small"), ("small", "mid")]))
    ops, plots = [], 0
    for _ in range(rng.choice([2, 4, 7, 12])):
        k = rng.choice(["show", "show", "show", "render", "render", "render", "render", "slide", "slide", "world", "values", "box", "direct"])
        if plots == 0 and k in ("render", "slide"):
            k = "show"
        op = dict(k=k, seed=rng.getrandbits(24))
        if k == "show":
            op.update(color=rng.choice(COLORS), filter=rng.choice(FILTERS), render=rng.random() < .7,
                      fault=W.gen_fault(rng, .2, kinds=("alloc", "interrupt")))
            plots += 1
        elif k == "render":
            op.update(plot=rng.randrange(plots), times=rng.choice([1, 1, 2]), fault=rng.choice([None, None, None, dict(op="display"), dict(op="interrupt", at=1 + int(rng.expovariate(1 / 15.)))]))
        elif k == "slide":
            op.update(plot=rng.randrange(plots), radius=rng.randint(1, 30), scale=rng.choice([None, None, "Viridis", "Spectral", "Greens"]))
        elif k == "values":
            op.update(what=rng.choice(["q", "solid", "disorder", "custom", "mask"]))
        elif k == "world":
            ops += W.gen_history(rng, len(specs), length=(1, 2))
            continue
        ops.append(op)
    return dict(specs=specs, ops=ops, trace=False)


class Screen:
    """what is displayed"""

    def __init__(self, ctx):
        self.ctx, self.shown, self.fail = ctx, [], False
        self.made = []
        ipywidgets.Widget.on_widget_constructed(self.made.append)
        go.Figure.show = lambda fig, *a, **kw: self.show(fig)

    def show(self, fig):
        if self.fail:
            self.fail = False
            self.ctx.fault_fired("display")
            raise rt.Injected("no display")
        self.shown.append(fig)


class Plot:
    pass


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return fn()


def value(a, w, i, key):
    """the value of a property of an atom"""
    if key == "val":
        return w.val[i]
    if key == "flag":
        return w.flag[i]
    if key == "none":
        return 0
    if key[0] == "q" and key[1:].isdigit():
        return a.get_q(int(key[1:]))
    if key[:2] == "aq":
        return a.get_q(int(key[2:]), averaged=True)
    return getattr(a, key)


def put_custom(ctx, w, r):
    n = w.cfg.n
    w.val, w.flag = r.normal(size=n).tolist(), [bool(x) for x in r.rand(n) < r.choice([.1, .5, .9])]

    def put():
        for i in range(n):
            a = w.s.get_atom(i)
            a.custom = dict(val=w.val[i], flag=w.flag[i], none=0)
            w.s.set_atom(a)
    ctx.must("set custom values", put)
    w.custom_n = n


def show(ctx, w, screen, plots, op):
    s, r = w.s, w.rng(op)
    if w.custom_n != w.cfg.n or not all("val" in a.custom for a in s.atoms):
        put_custom(ctx, w, r)
    wrong = "nothing" in (op["color"], op["filter"])
    p = Plot()
    atoms = s.atoms
    p.box = np.array(w.cfg.box)
    if not wrong:
        with ctx.judging():
            keep = [i for i in range(w.cfg.n) if op["filter"] is None or value(atoms[i], w, i, op["filter"])]
            p.pos = w.cfg.pos[keep].copy().reshape(-1, 3)
            p.color = None if op["color"] is None else np.array([value(atoms[i], w, i, op["color"]) for i in keep], float)
    p.title = op["color"]
    what = "show(colorby=%s, filterby=%s)" % (op["color"], op["filter"])
    kw = {}
    if op["color"] is not None or op["seed"] % 2:
        kw["colorby"] = op["color"]
    if op["filter"] is not None or op["seed"] % 3:
        kw["filterby"] = op["filter"]
    call = lambda: quiet(lambda: s.show(**kw))
    del screen.made[:]
    if wrong:
        ok, _ = ctx.call(call)
        # if no atom passes the filter, nobody needs its color
        some = op["filter"] in (None, "nothing") or any(value(a, w, i, op["filter"]) for i, a in enumerate(atoms))
        ctx.check(not (ok and some), "accepted", "%s: a property that is not there was accepted" % what)
        p = None
    else:
        if op.get("fault"):
            ok, v, fired = w.under_fault(op["fault"], call)
            ctx.check(ok or fired, "unexpected-error", lambda: "%s raised %s" % (what, v))
            if not ok:
                ctx.probe("retried")
                del screen.made[:]
                ctx.must(what + " again", call)
        else:
            ctx.must(what, call)
        buttons = [x for x in screen.made if isinstance(x, ipywidgets.Button)]
        ctx.check(len(buttons) >= 1, "no-control", lambda: "%s: there is nothing to press" % what)
        p.button = buttons[-1]
        sl = [x for x in screen.made if isinstance(x, (ipywidgets.FloatSlider, ipywidgets.IntSlider)) and x.description == "radius"]
        p.slider = sl[-1] if sl else None
        tx = [x for x in screen.made if getattr(x, "description", "") == "colorscale"]
        p.text = tx[-1] if tx else None
        p.radius = None if p.slider is None else float(p.slider.value)
        p.scale = None
        p.what = what
    w.check_config(what)
    plots.append(p)
    if p is not None and op["render"]:
        render(ctx, screen, p, None)
    ctx.state("show", op["color"], op["filter"], bool(op.get("fault")), w.spec["box"], w.cfg.n < 200, w.touched)


def render(ctx, screen, p, fault):
    n = len(screen.shown)
    if fault and fault["op"] == "display":
        screen.fail = True
        ctx.call(lambda: quiet(p.button.click))
        screen.fail = False
    elif fault:
        ctx.interrupt_after(fault["at"])
        try:
            ctx.call(lambda: quiet(p.button.click))
        finally:
            ctx.interrupt_off()
    if fault:
        del screen.shown[n:]
    ctx.must("Render plot", lambda: quiet(p.button.click))
    ctx.check(len(screen.shown) == n + 1, "no-picture", lambda: "%s: %d pictures when the plot is rendered" % (p.what, len(screen.shown) - n))
    with ctx.judging():
        picture(ctx, screen.shown[n], p, p.what)


def segments(traces):
    out = []
    for t in traces:
        xyz = [np.nan if v is None else v for v in t.x], [np.nan if v is None else v for v in t.y], [np.nan if v is None else v for v in t.z]
        q = np.array(xyz, float).T
        for a, b in zip(q[:-1], q[1:]):
            if np.all(np.isfinite(a)) and np.all(np.isfinite(b)):
                out.append((a, b))
    return out


def edges(ctx, traces, box, origin, what):
    """the lines are the edges of the cell, and nothing else"""
    size = np.abs(box).max()
    want = []
    for k in range(3):
        i, j = [x for x in range(3) if x != k]
        for a in (0, 1):
            for b in (0, 1):
                c = origin + a * box[i] + b * box[j]
                want.append((c, c + box[k]))
    hit = np.zeros(12, int)
    for a, b in segments(traces):
        if np.linalg.norm(a - b) < 1e-9 * size:
            continue
        d = [min(np.abs(a - x).max() + np.abs(b - y).max(), np.abs(a - y).max() + np.abs(b - x).max()) for x, y in want]
        i = int(np.argmin(d))
        ctx.check(d[i] < 1e-6 * (size + np.abs(origin).max()), "wrong-cell", lambda: "%s: the line from %s to %s is not an edge of the cell %s at %s" % (what, a.tolist(), b.tolist(), box.tolist(), list(origin)))
        hit[i] += 1
    ctx.check(hit.all(), "wrong-cell", lambda: "%s: %d edges of the cell are not drawn" % (what, int((hit == 0).sum())))


def picture(ctx, fig, p, what, cell=True):
    points = [t for t in fig.data if t.mode and "markers" in t.mode]
    lines = [t for t in fig.data if t.mode and "markers" not in t.mode]
    if cell:
        edges(ctx, lines, p.box, np.zeros(3), what)
    got = np.concatenate([np.array([t.x, t.y, t.z], float).T.reshape(-1, 3) for t in points]) if points else np.zeros((0, 3))
    ctx.check(len(got) == len(p.pos), "wrong-atoms", lambda: "%s: %d atoms in the picture instead of %d" % (what, len(got), len(p.pos)))
    if len(got):
        inv = np.linalg.inv(p.box)
        f = got @ inv
        if cell:
            ctx.check(f.min() > -1e-7 and f.max() < 1 + 1e-7, "wrong-place", lambda: "%s: an atom is outside the cell, at %s of it" % (what, f[np.abs(f - .5).max(axis=1).argmax()].tolist()))
        # which atom is which: the one with the same place in the cell
        from scipy.spatial import cKDTree
        tree = cKDTree((p.pos @ inv) % 1.0 % 1.0, boxsize=1.0)
        d, j = tree.query(f % 1.0 % 1.0)
        ctx.check(d.max() < 1e-6 and len(set(j.tolist())) == len(j), "wrong-atoms", lambda: "%s: the atoms in the picture are not those of the system, off by %g of the cell" % (what, d.max()))
        c = []
        for t in points:
            n = len(t.x)
            v = t.marker.color
            c.append(np.full(n, float(v)) if isinstance(v, (int, float)) else np.array([0.] * n if v is None or isinstance(v, str) else v, float))
        ctx.check(all(len(x) == len(t.x) for x, t in zip(c, points)), "wrong-colors", lambda: "%s: %s colors for %s atoms" % (what, [len(x) for x in c], [len(t.x) for t in points]))
        c = np.concatenate(c)
        want = p.color[j] if p.color is not None else np.full(len(c), c[0])
        ctx.check(np.allclose(c, want, rtol=1e-9, atol=1e-12, equal_nan=True), "wrong-colors",
                  lambda: "%s: atom %d has the color %r instead of %r" % (what, int(np.nanargmax(np.abs(c - want))), float(c[np.nanargmax(np.abs(c - want))]), float(want[np.nanargmax(np.abs(c - want))])))
        if p.radius is not None:
            ctx.check(all(t.marker.size == p.radius for t in points), "wrong-radius", lambda: "%s: radius %s instead of %s" % (what, [t.marker.size for t in points], p.radius))
        if p.scale is not None:
            ref = go.Scatter3d(marker=dict(colorscale=p.scale)).marker.colorscale
            ctx.check(all(t.marker.colorscale == ref for t in points), "wrong-scale", lambda: "%s: the color scale is not %s" % (what, p.scale))
        if p.title:
            ctx.check(any(t.marker.colorbar.title.text == p.title for t in points), "wrong-title", lambda: "%s: colors are labelled %s" % (what, [t.marker.colorbar.title.text for t in points]))
        ctx.nontrivial = True
        ctx.probe("atoms_in_pictures", len(got))
    ctx.probe("pictures")
    ctx.event("picture", len(got))


def still(fig):
    return [(t.mode, np.array(t.x, float).tolist(), np.array(t.y, float).tolist(), np.array(t.z, float).tolist()) for t in fig.data]


def run(plan, ctx):
    warnings.simplefilter("ignore")
    if go is None:
        ctx.probe("plotly_missing")
        return
    import pyscal.visualization as pv
    w = W.World(ctx, plan["specs"])
    w.custom_n = -1
    screen = Screen(ctx)
    plots, first = [], []
    for op in plan["ops"]:
        k, r = op["k"], w.rng(op)
        if k == "show":
            show(ctx, w, screen, plots, op)
        elif k == "render":
            p = plots[op["plot"]] if op["plot"] < len(plots) else None
            if p is not None:
                for _ in range(op["times"]):
                    render(ctx, screen, p, op["fault"])
                ctx.state("render", op["times"], op["fault"] and op["fault"]["op"])
        elif k == "slide":
            p = plots[op["plot"]] if op["plot"] < len(plots) else None
            if p is not None:
                if p.slider is not None:
                    p.slider.value = op["radius"]
                    p.radius = float(p.slider.value)
                if p.text is not None and op["scale"]:
                    p.text.value = p.scale = op["scale"]
                ctx.event("slide", op["radius"])
        elif k == "values":
            n = w.cfg.n
            if op["what"] == "custom":
                put_custom(ctx, w, r)
            elif op["what"] == "mask":
                def put():
                    for i in range(n):
                        a = w.s.get_atom(i)
                        a.mask = int(r.rand() < .5)
                        w.s.set_atom(a)
                ctx.must("set masks", put)
            elif n <= 500:
                def calc():
                    w.s.find_neighbors(method="cutoff", cutoff=w.rcut())
                    if op["what"] == "q":
                        w.s.calculate_q([2, 4, 6], averaged=True)
                    elif op["what"] == "solid":
                        w.s.find_solids(bonds=.5, threshold=.5, avgthreshold=.5)
                    else:
                        w.s.calculate_disorder(q=6)
                ctx.call(calc)
        elif k == "box":
            box = w.cfg.box
            origin = np.round(r.uniform(-9, 9, 3), 3) if r.rand() < .6 else np.zeros(3)
            kw = {} if not origin.any() else dict(origin=origin.tolist() if r.rand() < .5 else origin)
            t = ctx.must("create_box_plot", lambda: pv.create_box_plot(box.tolist() if r.rand() < .5 else box, **kw))
            with ctx.judging():
                edges(ctx, t, box, origin, "create_box_plot")
            ctx.state("box", bool(kw), w.spec["box"])
        elif k == "direct":
            # the same list of traces may be used for many plots
            p = Plot()
            p.box, p.pos, p.title = w.cfg.box.copy(), w.cfg.pos.copy(), "val"
            p.color, p.radius, p.scale = r.normal(size=w.cfg.n), float(r.randint(1, 30)), "Viridis"
            with_box = r.rand() < .7
            traces = pv.create_box_plot(p.box) if with_box else None
            for _ in range(1 + r.randint(2)):
                n = len(screen.shown)
                ctx.must("plot_3d", lambda: quiet(lambda: pv.plot_3d(p.pos, color=p.color, radius=p.radius, colorscale=p.scale, traces=traces, cmap_title=p.title)))
                ctx.check(len(screen.shown) == n + 1, "no-picture", "plot_3d")
                with ctx.judging():
                    picture(ctx, screen.shown[n], p, "plot_3d", cell=False)
                    if with_box:
                        edges(ctx, [t for t in screen.shown[n].data if "markers" not in t.mode], p.box, np.zeros(3), "plot_3d")
        else:
            w.history(op)
            if w.custom_n != w.cfg.n or k in ("config", "add"):
                w.custom_n = -1
        while len(first) < len(screen.shown):
            first.append(still(screen.shown[len(first)]))
    # pictures stay as they are
    with ctx.judging():
        for a, fig in zip(first, screen.shown):
            ctx.check(np.array_equal(str(a), str(still(fig))), "picture-changed", "a picture that is displayed has changed")
    w.check_config("at the end")


def shrink(plan):
    yield from W.shrink_world(plan)
    for i, op in enumerate(plan["ops"]):
        if op.get("fault"):
            yield dict(plan, ops=plan["ops"][:i] + [dict(op, fault=None)] + plan["ops"][i + 1:])
