"""Results depend on the configuration and the calls, not on anything that happened before"""
import hashlib
import os
import random
import warnings
import numpy as np
from sim import sysgen as G, world as W, dump as D, rt

ID = "C19"
QUICK, THOROUGH, TIMEOUT = 300, 30000, 180
RULE = ("a run = a System with a history (configurations, changes, analyses, failed and interrupted ones), and a sequence of analyses on it; then the same configuration in a new "
        "System, with other contents of fresh memory, other states of the random generators, and before or after other Systems were used: every field of every atom and every "
        "value returned has to be the same, bit by bit; non-trivial = the sequences were not all refused")
ANALYSES = [a for a in W.ANALYSES if a not in ("wronguse",)]


# analyses that have parameters, fields or intermediate results in common
FAMILIES = [["cut", "cutfilter", "adaptive", "number", "sann", "voronoi", "vorofilter", "vorovector", "atomcutoff"],
            ["q", "aq", "qcond", "solids", "disorder"], ["solids", "cluster", "clusterattr", "qcond"],
            ["acna", "cna", "diamond", "diamondneigh", "number", "cut"], ["centro", "number", "angular", "chi"],
            ["entropy", "cut", "atomcutoff"], ["sro", "cutfilter", "voronoi", "concentration"]]


def relative(rng, a):
    if rng.random() < .5:
        return a
    return rng.choice([x for f in FAMILIES if a in f for x in f] or [a])


def gen(rng, tier):
    specs = W.gen_world(rng, nspecs=(1, 2, 3), big=.02, sizes=rng.choice([("tiny",), ("tiny", "small"), ("small",), ("small", "mid")]))
    ops = W.gen_history(rng, len(specs), length=(1, 2, 4, 7))
    more = [op for op in W.gen_history(rng, len(specs), length=(1, 2, 4), kinds=["noise", "noise", "fail"])]
    analyses = rng.sample(ANALYSES, rng.choice([1, 2, 4, 10]))
    seq = [dict(a=rng.choice(analyses), seed=rng.getrandbits(20)) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
    if rng.random() < .6:
        # the same or related analyses with other parameters right before
        for l in (ops, more):
            l += [dict(k="noise", seed=rng.getrandbits(24), a=relative(rng, seq[0]["a"])) for _ in range(rng.choice([1, 1, 2, 3]))]
    return dict(specs=specs, ops=ops, more=more, seq=seq, how=rng.choice(["assign", "assign", "new", "read", "keep", "keep"]), fill2=rng.getrandbits(31),
                twice=rng.random() < .5, trace=False)


def sequence(ctx, w, seq):
    """what is seen in a sequence of analyses"""
    out = []
    for op in seq:
        s = w.s
        res = []
        cb = lambda atom: atom.type == 1
        if w.cfg.n > 1500 and op["a"] in W.HEAVY:
            continue
        ok, v = ctx.call(w.run_analysis, op["a"], op["seed"], cb)
        res = [op["a"], ok, None if ok else type(v).__name__]
        if ok and op["a"] == "rdf":
            res.append(repr([x.tolist() for x in s.calculate_rdf(histobins=11)]))
        elif ok and op["a"] == "distance" and w.cfg.n > 1:
            res.append(repr(s.get_distance(s.get_atom(0), s.get_atom(w.cfg.n - 1), vector=True)))
        elif ok and op["a"] == "ase":
            a = s.to_ase(species=D.SYMBOLS[:max(w.cfg.types)])
            res.append(repr((a.get_positions().tolist(), np.array(a.get_cell()).tolist(), a.get_chemical_symbols())))
        elif ok and op["a"] == "cluster":
            res.append(repr(s.cluster_atoms(cb)))
        elif ok and op["a"] == "solids":
            res.append(repr(s.find_solids(bonds=4, threshold=.3, avgthreshold=.3)))
        res.append(W.show_system(s, 400))
        out.append(res)
    return out


def compare(ctx, a, b, what):
    ctx.check(len(a) == len(b), "history", "%s: other results" % what)
    for x, y in zip(a, b):
        if x != y:
            d = W.differs(x[-1], y[-1])
            ctx.fail("depends-on-history", "%s: %s differs: %s" % (what, x[0], ", ".join(d) or "%s / %s" % (str(x[1:-1])[:150], str(y[1:-1])[:150])))


def run(plan, ctx):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    w = W.World(ctx, plan["specs"])
    for op in plan["ops"]:
        w.history(op)
    how = plan["how"]
    if how == "keep" and any(op["a"] == "clusterattr" for op in plan["seq"]):
        how = "assign"          # this one is meant to use what was calculated before
    if how in ("assign", "keep"):
        ctx.must("assign configuration", w.assign)
    elif how == "read":
        name = os.path.join(ctx.root, "conf.dump")
        w2 = ctx.must("build", w.cfg.system)
        ctx.must("write", w2.to_file, name)
        ctx.must("read", w.s.read_inputfile, name)
    elif how == "new":
        w.s = ctx.must("build", w.cfg.system)
    if how == "keep":
        # analyses of the same configuration; only the results of the sequence are comparable
        total = w.s.ntotal
        for op in plan["more"]:
            w.history(op)
        if w.s.ntotal != total:
            # Voronoi cells needed more periodic images, which are still there
            ctx.must("assign configuration", w.assign)
            how = "assign"
    first = sequence(ctx, w, plan["seq"])

    # again, elsewhere
    ctx.alloc.fill(plan["fill2"])
    random.seed(plan["fill2"])
    np.random.seed(plan["fill2"])
    if how == "read":
        s = ctx.must("System", type(w.s))
        ctx.must("read", s.read_inputfile, name)
    else:
        s = ctx.must("build", w.cfg.system)
    w.s = s
    second = sequence(ctx, w, plan["seq"])
    if how == "keep":
        # fields that no analysis of the sequence sets may be left from before: compare those that are set
        names = touched(ctx, w, plan["seq"])
        for x in first + second:
            x[-1] = {k: v for k, v in x[-1].items() if k in names}
    compare(ctx, first, second, "a System with a history (%s) and a new one" % how)
    if plan["twice"]:
        # once more on the same System
        sequence(ctx, w, plan["seq"])       # with all the periodic images that are needed
        third = sequence(ctx, w, plan["seq"])
        fourth = sequence(ctx, w, plan["seq"])
        compare(ctx, third, fourth, "the last time and the one before it")
    ctx.nontrivial = any(x[1] for x in first)
    ctx.probe("results_compared", len(first))
    for x in first:
        ctx.state(x[0], x[1], how, w.cfg.n < 200, w.spec["box"])
        ctx.event(x[0], x[1], hashlib.sha256(repr(x).encode()).hexdigest())


def touched(ctx, w, seq):
    """fields that the whole sequence sets, and those that it has to leave alone"""
    s = w.cfg.system()
    clean = W.fingerprint(s.atoms)
    keep = w.s
    w.s = s
    out = {"pos", "id", "type", "loc", "(box)"}
    r = sequence(ctx, w, seq[:1])
    if all(x[1] for x in r):
        out |= set(W.differs(W.fingerprint(s.atoms), clean))
        if seq[0]["a"] != "solids":
            out.discard("sij")          # shown for as many neighbors as there are
            out.discard("surface")      # belongs to the solids that were found last
        if not all(x[1] for x in sequence(ctx, w, seq)):
            out = {"pos", "id", "type", "loc", "(box)"}
    w.s = keep
    return out


def shrink(plan):
    yield from W.shrink_world(plan)
    for i in range(len(plan["seq"])):
        if len(plan["seq"]) > 1:
            yield dict(plan, seq=plan["seq"][:i] + plan["seq"][i + 1:])
    for i in range(len(plan["more"])):
        yield dict(plan, more=plan["more"][:i] + plan["more"][i + 1:])
    if plan["twice"]:
        yield dict(plan, twice=False)
