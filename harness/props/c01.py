"""C01: ncon against an explicit index sum (numpy.einsum on distinct letters, no path optimisation)."""
import numpy as np
import copy
import dense
import lib.ncon as ncon_pkg

RULE = ("random networks of 1-5 tensors (traces, multi-leg bonds, disconnected parts, scalars, outer products, size-1 legs) "
        "with random contraction and final orders; non-trivial = at least one contraction or more than one tensor; "
        "plus malformed variants of such networks, one defect each")
ASSUMPTIONS = ["numpy.einsum (without optimisation) is the reference for explicit index sums",
               "the expression 'contraction order' means the documented list of all positive labels"]


def network(ctx, ntens=None):
    k = ntens or ctx.pick(1, 2, 2, 3, 3, 4, 5, 7)
    legs = [[] for _ in range(k)]
    shapes = [[] for _ in range(k)]
    nlab = ctx.integer(0, 6) if k > 1 else ctx.integer(0, 2)
    for lab in range(1, nlab + 1):
        d = ctx.pick(1, 2, 2, 3, 4)
        a = ctx.integer(0, k - 1)
        b = ctx.integer(0, k - 1) if (k == 1 or ctx.flag(0.3)) else (a + ctx.integer(1, k - 1)) % k
        for t in (a, b):
            legs[t].append(lab)
            shapes[t].append(d)
    nopen = ctx.integer(0, 4)
    for lab in range(1, nopen + 1):
        d = ctx.pick(1, 2, 3)
        a = ctx.integer(0, k - 1)
        legs[a].append(-lab)
        shapes[a].append(d)
    for t in range(k):
        perm = ctx.rng.permutation(len(legs[t]))
        legs[t] = [legs[t][i] for i in perm]
        shapes[t] = [shapes[t][i] for i in perm]
    # unusual label values: keep the relative order of -1,-2,.. but allow gaps
    if ctx.flag(0.3):
        mp = {}
        nxt = 0
        for lab in range(1, nlab + 1):
            nxt += ctx.integer(1, 3)
            mp[lab] = nxt
        nxt = 0
        for lab in range(1, nopen + 1):
            nxt -= ctx.integer(1, 3)
            mp[-lab] = nxt
        legs = [[mp[x] for x in l] for l in legs]
    tens = []
    for t in range(k):
        dt = ctx.pick(float, complex)
        a = ctx.array(tuple(shapes[t]), dt)
        a = np.asarray(a)
        if a.ndim > 1 and ctx.flag(0.3):
            a = np.asfortranarray(a)
        elif a.ndim > 0 and ctx.flag(0.2):
            a = a[::-1]
        tens.append(a)
    return tens, legs


def reference(tens, legs, forder=None):
    labs = sorted({x for l in legs for x in l})
    let = {x: dense.LETTERS[i] for i, x in enumerate(labs)}
    free = forder if forder is not None else sorted([x for x in labs if x < 0], reverse=True)
    expr = ",".join("".join(let[x] for x in l) for l in legs) + "->" + "".join(let[x] for x in free)
    return np.einsum(expr, *tens)


def wellformed(ctx):
    tens, legs = network(ctx)
    pos = sorted({x for l in legs for x in l if x > 0})
    neg = sorted({x for l in legs for x in l if x < 0}, reverse=True)
    mode = ctx.pick("default", "order", "forder", "both")
    kw = {}
    if mode in ("order", "both"):
        o = list(pos)
        ctx.rng.shuffle(o)
        kw["order"] = [int(x) for x in o]
    fo = None
    if mode in ("forder", "both"):
        f = list(neg)
        ctx.rng.shuffle(f)
        fo = kw["forder"] = [int(x) for x in f]
    if ctx.flag(0.15):
        kw["check_indices"] = False
    before = [t.copy() for t in tens]
    legs_in = copy.deepcopy(legs)
    T, V = list(tens), copy.deepcopy(legs)
    cont = ctx.pick("list", "tuple")
    if cont == "tuple":
        out = ncon_pkg.ncon(tuple(T), tuple(tuple(l) for l in V), **kw)
    else:
        kw2 = copy.deepcopy(kw)
        out = ncon_pkg.ncon(T, V, **kw2)
        ctx.check(V == legs_in, "ncon modified the caller's leg lists: %s -> %s" % (legs_in, V))
        ctx.check(len(T) == len(tens) and all(a is b for a, b in zip(T, tens)), "ncon modified the caller's tensor list")
    want = reference(tens, legs, fo)
    ctx.close(np.asarray(out), np.asarray(want), "ncon%s" % (legs,), tol=1e-10, scale=1.0)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(tens, before)), "ncon modified the caller's tensors")
    ctx.count("networks contracted")
    ctx.count("labels contracted", len(pos))
    if len(tens) > 1 or pos:
        ctx.sig(mode, cont, str(legs), str([t.shape for t in tens]))


def order_invariance(ctx):
    tens, legs = network(ctx, ctx.integer(2, 5))
    pos = sorted({x for l in legs for x in l if x > 0})
    ref = None
    for rep in range(4):
        o = list(pos)
        ctx.rng.shuffle(o)
        out = np.asarray(ncon_pkg.ncon(list(tens), copy.deepcopy(legs), order=[int(x) for x in o]))
        if ref is None:
            ref = out
        ctx.close(out, ref, "ncon order %s of %s" % (o, legs), tol=1e-10, scale=1.0)
        ctx.count("contraction orders tried")
    ctx.close(ref, np.asarray(reference(tens, legs)), "ncon %s" % (legs,), tol=1e-10, scale=1.0)
    if pos:
        ctx.sig(str(legs))


def single(ctx):
    """a bare tensor and a flat leg list"""
    nd = ctx.integer(1, 4)
    a = ctx.array(tuple(ctx.integer(1, 3) for _ in range(nd)), ctx.pick(float, complex))
    perm = ctx.rng.permutation(nd)
    legs = [-int(i) - 1 for i in perm]
    out = ncon_pkg.ncon(a, legs)
    want = np.transpose(a, np.argsort(perm))
    ctx.close(out, want, "ncon(single tensor, %s)" % legs)
    ctx.sig(str(legs), str(a.shape))
    n = ctx.integer(1, 4)
    m = ctx.array((n, n), complex)
    ctx.close(np.asarray(ncon_pkg.ncon(m, [1, 1])), np.trace(m), "ncon trace", scale=1.0)
    ctx.close(np.asarray(ncon_pkg.ncon([m], [[1, 1]])), np.trace(m), "ncon trace", scale=1.0)


def malformed(ctx):
    for _ in range(60):
        tens, legs = network(ctx, ctx.integer(1, 4))
        pos = sorted({x for l in legs for x in l if x > 0})
        neg = sorted({x for l in legs for x in l if x < 0})
        kind = ctx.pick("missing leg", "extra leg", "dangling", "triple", "open twice", "dim mismatch", "count")
        T, V = list(tens), copy.deepcopy(legs)
        if kind == "missing leg":
            c = [i for i in range(len(V)) if len(V[i]) > 0]
            if not c:
                continue
            V[c[ctx.integer(0, len(c) - 1)]].pop()
        elif kind == "extra leg":
            V[ctx.integer(0, len(V) - 1)].append(-99)
        elif kind == "dangling":       # a positive label occurring once
            i = ctx.integer(0, len(T) - 1)
            T[i] = T[i][..., None]
            V[i].append(max(pos + [0]) + 1)
        elif kind == "triple":
            if not pos:
                continue
            lab = pos[ctx.integer(0, len(pos) - 1)]
            d = [t.shape[l.index(lab)] for t, l in zip(tens, legs) if lab in l][0]
            i = ctx.integer(0, len(T) - 1)
            T[i] = np.repeat(T[i][..., None], d, axis=-1)
            V[i].append(lab)
        elif kind == "open twice":
            if not neg:
                continue
            lab = neg[ctx.integer(0, len(neg) - 1)]
            d = [t.shape[l.index(lab)] for t, l in zip(tens, legs) if lab in l][0]
            i = ctx.integer(0, len(T) - 1)
            T[i] = np.repeat(T[i][..., None], d, axis=-1)
            V[i].append(lab)
        elif kind == "dim mismatch":
            if not pos:
                continue
            lab = pos[ctx.integer(0, len(pos) - 1)]
            i = [j for j, l in enumerate(V) if lab in l][0]
            ax = V[i].index(lab)
            d = T[i].shape[ax]
            if d > 3:
                continue
            T[i] = np.repeat(np.take(T[i], [0], axis=ax), d + 1, axis=ax)
        else:
            V.append([]) if ctx.flag() else T.append(ctx.array(()))
        break
    else:
        return
    try:
        out = ncon_pkg.ncon(T, V)
    except Exception:
        ctx.count("malformed networks rejected")
        ctx.check(True, "")
        ctx.sig(kind, str(V))
        return
    ctx.check(False, "malformed network accepted (%s): shapes %s legs %s -> %r" % (
        kind, [t.shape for t in T], V, np.shape(out)))


def live(ctx):
    """every contraction performed by live runs of the library (pbc boundary Hamiltonians, VUMPS steps, unit cells) against the index sum"""
    import gen, monitors, workloads
    import lib.mpslib.mps as mpslib
    import lib.mpslib.mpsfunctions as mf
    import lib.mpslib.Hamiltonians as H
    import lib.mpslib.engines as en

    def contract(args, kwargs, res):
        tens, legs = args[0], args[1]
        if len(args) > 2 or kwargs or not isinstance(tens, list) or not isinstance(legs[0], (list, tuple)):
            return
        tens = [np.asarray(t) for t in tens]
        if np.prod([float(t.size) for t in tens]) > 1e9 or len({x for l in legs for x in l}) > 20:
            ctx.count("large live contractions not compared")
            return
        labs = sorted({x for l in legs for x in l})
        let = {x: dense.LETTERS[i] for i, x in enumerate(labs)}
        free = sorted([x for x in labs if x < 0], reverse=True)
        want = np.einsum(",".join("".join(let[x] for x in l) for l in legs) + "->" + "".join(let[x] for x in free), *tens, optimize=True)
        ctx.close(res, want, "live contraction %s" % (legs,), tol=1e-10, scale=max(1e-12, float(np.prod([np.max(np.abs(t)) for t in tens]))))
        ctx.count("live contractions compared")
        ctx.sig("live", legs)
    what = ctx.pick("workload", "vumps", "boundary", "cell", "periodic")
    with monitors.watch((ncon_pkg, "ncon", contract)):
        if what == "workload":
            workloads.run(ctx, ctx.pick("sweeps", "arith", "gates", "dmrg", "tebd", "tdvp"))
        elif what == "vumps":
            m = mpslib.MPS.random(1, 3, 2, False, dtype=gen.dtype(ctx))
            m.regauge("right")
            en.VUMPSengine(m, H.TFI(np.array([-1.0]), np.array([ctx.rng.uniform(1.2, 2.0)]), False), "w").simulate(3)
        elif what == "periodic":
            m = mpslib.MPS([ctx.array((2, 2, 2), gen.dtype(ctx))])
            en.PeriodicMPSengine(m, H.TFI(np.array([-1.0]), np.array([0.6]), False), 4, "w").getHeffNeff()
        else:
            N = ctx.integer(1, 3)
            ts, dt = gen.cell(ctx, N, D=3, d=2)
            m = mpslib.MPS.fromList(ts)
            m.regauge(ctx.pick("left", "right", "symmetric"))
            if what == "boundary":
                mpo = H.XXZ(ctx.rng.uniform(-1, 1, N), ctx.rng.uniform(-1, 1, N), ctx.rng.uniform(-1, 1, N), False)
                mf.getBoundaryHams(m, mpo, regauge=True)
            else:
                m.canonize()
    ctx.count("live runs")


CASES = [("live", live, 30, 400), ("wellformed", wellformed, 800, 20000), ("order-invariance", order_invariance, 250, 6000),
         ("single-tensor", single, 100, 1500), ("malformed", malformed, 400, 8000)]
